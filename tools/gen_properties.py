#!/usr/bin/env python3
"""Writes properties.jsonl. The table below is the source; run it after editing."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- numerics
prop("N01", "A prediction is the mathematical function the network describes",
 "For every network (any number of layers, any layer sizes, any mix of built-in activations) and every input, predicting writes exactly the output vector obtained by applying, layer by layer, weights and biases followed by the layer's activation, up to float rounding. Nothing outside the output vector is written, the network and the input are left unchanged, and the result does not depend on how the caller's input and output buffers are aligned.",
 ["inputs", "configurations"],
 "all layer sizes/depths, weights, inputs (zero, one and general entries), buffer alignments, supported instruction-set builds",
 "Tests compare a handful of shapes with aligned buffers in the one build configured; the kernels have separate code for 16-wide, 8-wide and tail columns and for inputs equal to 0 and 1, so every size residue, entry kind and alignment is its own path.",
 ["src/neuralnet.c", "src/matrix_operations.c", "src/activation.c"],
 [("forward pass and work-memory partitioning", "src/neuralnet.c neuralnet_predict"), ("vector*matrix kernel", "src/matrix_operations.c vector_matrix_multiply")],
 ["neuralnet_predict output buffer and surrounding memory"])
prop("N02", "Batch prediction equals predicting each sample on its own",
 "Predicting a batch of any number of samples writes, for every sample, the same output as predicting that sample alone (up to float rounding, and independent of the other samples in the batch). Exactly samples x outputs values are written, for any output width and any buffer alignment, and an empty batch writes nothing.",
 ["inputs", "configurations"],
 "all batch sizes incl. 0 and 1, all layer sizes, all samples' contents, OpenMP and BLAS builds, batches larger than the internal work memory",
 "Tests use a few batch sizes on fixed networks in one build; output rows are unaligned for most widths and the BLAS path splits recursively for large batches.",
 ["src/neuralnet_predict_batch.c", "src/neuralnet.c", "src/matrix_operations.c"],
 [("batch loop / BLAS batch path with divide and conquer", "src/neuralnet_predict_batch.c neuralnet_predict_batch")])
prop("N03", "Back-propagation yields the true gradient of the configured loss",
 "For every network whose output activation and loss are a supported pairing and every sample, back-propagation fills the caller's vector with the partial derivatives of the loss with respect to every bias and weight, in the documented order (per layer bias, then weight). Every element of the vector is overwritten whatever it contained, nothing beyond it is touched, and the network, input and target stay unchanged.",
 ["inputs", "configurations"],
 "all depths and layer sizes, all supported activation x loss pairs, all inputs/targets, supported instruction-set builds",
 "Existing tests check a few fixed networks against stored numbers; derivative kernels have wide/tail paths depending on every layer width, and gradients of later layers start at arbitrary offsets inside the vector.",
 ["src/neuralnet.c", "src/activation.c", "src/loss.c", "src/matrix_operations.c"],
 [("backward pass", "src/neuralnet.c neuralnet_backpropagation"), ("loss/activation matching", "src/neuralnet.c neuralnet_set_loss")])
prop("N04", "Element-wise activations are accurate on every float input",
 "Each element-wise built-in activation, applied to any finite float at any position of a vector of any length and alignment, gives its mathematical value within a few units in the last place (absolute near zero where the function saturates), never NaN, and always inside the function's range. Elements outside the vector are untouched and the same function is found again from its name and its name from the function.",
 ["inputs", "configurations"],
 "all finite float inputs, all vector lengths and start alignments up to several SIMD widths, all supported instruction-set builds",
 "Tests evaluate some thousand points inside [-10,10] at aligned addresses; saturation, overflow, subnormals and each head/body/tail position are never all visited.",
 ["src/activation.c"],
 [("vectorised activations and polynomial exp", "src/activation.c")])
prop("N05", "Activation derivatives match their activations everywhere",
 "For each built-in element-wise activation, the derivative routine multiplies the incoming vector by the exact slope of the activation expressed through the activation's own output value, for every reachable output value, at every position, length and alignment. The result is finite for finite inputs and the activation values are not modified.",
 ["inputs", "configurations"],
 "all reachable activation outputs, all vector lengths and (independent) alignments of both vectors, all supported instruction-set builds",
 "Tests check a moderate set of points with aligned vectors of a fixed length; back-propagation calls these routines on interior slices of the gradient.",
 ["src/activation.c"],
 [("derivative kernels", "src/activation.c *_derivative")])
prop("N06", "Softmax always yields a probability distribution",
 "For every vector of one or more finite floats, the softmax activation produces non-negative values that sum to one (within rounding), equal to the mathematical softmax, invariant to adding a constant and equivariant under permutation, without overflow or NaN however large the inputs are. This holds for every length and alignment, and nothing outside the vector is touched.",
 ["inputs", "configurations"],
 "all vectors over a spread of magnitudes (incl. extreme and equal values), all lengths, position of the maximum, alignments, instruction-set builds",
 "Tests use a few random vectors; the maximum search, the unaligned head and the vector tail each depend on length, alignment and position of the largest element.",
 ["src/activation.c"],
 [("three-pass softmax", "src/activation.c softmax")])
prop("N07", "Loss functions are the derivatives of the losses they name",
 "Every documented loss name and alias selects the gradient of that loss with respect to the predictions (for the two cross-entropies: combined with their matching output activation), for every vector length and every finite prediction/target pair including negative targets and targets at zero. Unknown names select nothing, and the reported name of a selected loss selects the same loss again.",
 ["inputs"],
 "all prediction/target pairs over a value alphabet incl. signs, zeros, ties and extremes; all vector lengths up to the bound; all names",
 "Tests check some random positive vectors per loss; sign, zero-target and tie cases and normalisation by each length are not enumerated.",
 ["src/loss.c"],
 [("loss gradients and name lookup", "src/loss.c")])
prop("N08", "Metrics compute the quantities they name",
 "Every documented metric name and alias computes its defined scalar for every vector length and every prediction/target pair: errors are non-negative and zero on a perfect match, percentage error is relative to the magnitude of the target, cross-entropies stay finite for predictions at or outside 0 and 1, accuracies lie in [0,1] and compare rounded-and-clipped classes or positions of the first largest element. Unknown names select nothing, and every loss has the metric of the same name.",
 ["inputs"],
 "all prediction/target pairs over a value alphabet incl. 0, 1, out-of-range values, negative targets and ties; all vector lengths up to the bound",
 "Tests check random vectors in the ordinary range; boundary and out-of-range predictions, ties and negative targets are not covered.",
 ["src/metrics.c"],
 [("metric functions and name lookup", "src/metrics.c")])
prop("N09", "Results do not depend on the instruction set or BLAS build",
 "The same program (create, load, predict, batch-predict, train any optimizer, evaluate, save) produces the same numbers, up to accumulated float rounding, whether the library is built for plain x86-64, AVX, AVX2, AVX-512 or with BLAS, and a file saved by one build is read identically by every other build.",
 ["configurations", "programs"],
 "all pairs of supported builds x programs over network shapes, optimizers and batch sizes up to the bound",
 "The test suite only ever builds one configuration (the one the build machine has).",
 ["src/matrix_operations.c", "src/activation.c", "src/simd.h", "src/optimizer.c", "src/neuralnet_predict_batch.c"],
 [("compile-time SIMD selection", "src/simd.h and #ifdef __AVX*__ blocks")])
# ---------------------------------------------------------------- construction / lifecycle
prop("K01", "Creating a network honours its description or fails cleanly",
 "Creating a network with valid sizes yields one whose layers have exactly the requested sizes, activations (the identity when a name is missing or unknown) and SIMD-aligned storage, and no loss set. Invalid sizes or layer counts, and running out of memory at any single point, give a null result with no leak, no invalid memory access and no crash.",
 ["inputs", "fault_sequences"],
 "all size vectors over an alphabet incl. zero and negative values up to a depth; every allocation-failure point; known/unknown/NULL activation names",
 "Tests cover a few wrong size arrays; allocation failures are never injected.",
 ["src/neuralnet.c"],
 [("argument checks and allocation with clean-up", "src/neuralnet.c neuralnet_create, _weights_memory_allocate")])
prop("K02", "Parameter vector, counting and updates agree on one layout",
 "For every network the number of parameters reported equals the number of floats read by extracting the parameters, written by back-propagation and consumed by an update, all in the same order (per layer bias, then row-major weights). Updating with a vector adds it element-wise to exactly the parameters extracted, whatever the vector's alignment, and touches nothing else.",
 ["inputs", "configurations", "histories"],
 "all layer-size vectors up to the bound, all update sequences up to a depth, all alignments of the caller's vector",
 "Tests use a few shapes; wide/tail handling depends on each layer's parameter count and the running offset.",
 ["src/neuralnet.c", "src/neuralnet.h", "src/matrix_operations.c"],
 [("update / extraction", "src/neuralnet.c neuralnet_update, neuralnet_get_parameters")])
prop("K03", "Weight initialisation is finite, in range, reproducible and complete",
 "Initialising a network sets every weight from the distribution selected for its layer (by explicit name, else by the layer's activation) and every bias to zero, for every sequence of random-generator outcomes: uniform initialisation stays within its documented bound, and no weight is ever NaN or infinite. Re-seeding the generator and initialising again gives the identical network, whatever was initialised before.",
 ["inputs", "histories"],
 "all sequences of generator outcomes over the extreme, central and typical values up to the bound; all initializer names; all prior initialisation histories up to a depth",
 "Tests run one or two seeds; degenerate generator outcomes and leftover generator state across networks are never hit.",
 ["src/neuralnet.c"],
 [("uniform / normal generators", "src/neuralnet.c random_uniform, random_normal, neuralnet_initialize")],
 state=[("cached second normal deviate", "process-wide state that survives between initialisations", "src/neuralnet.c random_normal")])
prop("K04", "Configuring the loss depends only on the last call",
 "After any sequence of loss selections on a network (including unknown names in between), predictions are unchanged and training behaves as on a fresh network on which only the last valid selection was made; selecting an unknown name leaves the network without a loss. Selecting a loss on one network never affects another.",
 ["histories"],
 "all sequences of loss selections up to a depth x output activations",
 "Tests set a loss once per network.",
 ["src/neuralnet.c", "src/loss.c"],
 [("loss selection and derivative substitution", "src/neuralnet.c neuralnet_set_loss")])
prop("K05", "Every use/free order is memory-safe and leak-free",
 "Any sequence of creating, using and freeing networks, optimizers of every kind (including user-defined ones that keep the default clean-up), callbacks, arrays and array lists, in any legal order and any number of instances, performs no invalid access, frees everything exactly once and leaks nothing.",
 ["histories"],
 "all legal operation sequences over the object kinds up to a depth",
 "Tests exercise one order per object without leak or double-free detection.",
 ["src/optimizer.h", "src/callback.h", "src/neuralnet.c", "src/optimizer.c", "npy_array/npy_array.c", "npy_array/npy_array_list.c"],
 [("constructor/destructor macros", "src/optimizer.h OPTIMIZER_DEFINE, optimizer_free; src/callback.h CALLBACK_DEFINE")])
# ---------------------------------------------------------------- storage
prop("S01", "Saving and loading a network preserves it exactly",
 "For every network, saving it and loading the file back gives a network with the same layer sizes and activations and bit-identical parameters (including NaN, infinities, subnormals and signed zeros), and hence identical predictions; saving does not modify the network, replaces any previous file at that path, and the formatted file name is honoured up to its length limit.",
 ["inputs", "histories"],
 "all depths, layer sizes and activation assignments up to the bound, parameter bit patterns, overwrite histories, file-name lengths around the limit",
 "Tests save and load one or two networks with ordinary weights.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c"],
 [("save / load", "src/neuralnet.c neuralnet_save, neuralnet_load")])
prop("S02", "Arrays survive save, load and memory-mapping unchanged",
 "For every array (any element type, up to eight dimensions, any sizes including zero, either memory order) saving and then loading or memory-mapping the file gives an array with the same type, shape, order and bytes; the file is a valid NumPy array file whose header is padded as the format demands, and arrays written by NumPy, with headers of any legal length, are read identically. Freeing releases everything, including the whole mapping.",
 ["inputs"],
 "all shapes over small sizes up to 8 dimensions, all element types and orders, header lengths, NumPy-written files",
 "Tests load a few fixed arrays; zero sizes, eight dimensions and long headers are not exercised.",
 ["npy_array/npy_array.c", "npy_array/npy_array.h"],
 [("header writer / parser, size computation", "npy_array/npy_array.c npy_array_get_header, _read_matrix, npy_array_calculate_datasize")])
prop("S03", "Array lists behave as ordered sequences and round-trip as archives",
 "Any sequence of append and prepend operations yields the list of exactly those arrays and formatted names in that order, with the length reported; saving it writes an archive that NumPy and this library read back with the same names, order and contents, stored with the compression the caller asked for (a name beyond the documented limit is replaced by a generated one). The number reported as saved is the number really in the written archive; an archive that cannot be written is reported as a failure, not a crash.",
 ["histories", "inputs"],
 "all operation sequences up to a depth, names incl. format characters and boundary lengths, all compression requests, unwritable targets",
 "Tests build one or two small lists with plain names and never look at the compression used.",
 ["npy_array/npy_array_list.c"],
 [("list operations, archive writer/reader", "npy_array/npy_array_list.c")])
prop("S04", "Networks exported from NumPy load as described",
 "A network archive written by NumPy (stored or deflated, with the layer arrays in order and the activation-name array anywhere among them, any name width, fewer or no activation names meaning identity) loads as the network it describes. Archives whose arrays do not describe a network (wrong element type or byte order, wrong dimensions, inconsistent sizes, a missing bias, no layer, column-major weights) are refused with a null result, without crash, invalid access or leak.",
 ["inputs", "configurations"],
 "all archive layouts over the array kinds, orders and defects up to a number of arrays",
 "Tests load one reference archive; mis-shaped archives are never tried.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c"],
 [("network loader", "src/neuralnet.c neuralnet_load, _activation_names_from_npy")])
prop("S05", "Damaged array files are refused without harm",
 "Reading any byte sequence as an array file - every truncation, every single-byte corruption and every malformed header of a valid file - either yields an array whose data is entirely backed by the file's bytes or a null result; it never crashes, aborts, hangs, reads or writes outside its buffers or leaks. A file too short for the shape it announces is always refused, whether loaded or memory-mapped.",
 ["inputs", "fault_sequences"],
 "all truncation points and all single-byte substitutions of a set of valid files, plus all header variants over a grammar of malformed fields",
 "Tests feed a couple of bad files; nothing enumerates truncations or header mutations.",
 ["npy_array/npy_array.c"],
 [("header parser and bounded readers", "npy_array/npy_array.c _read_matrix, read_mapped")])
prop("S06", "Damaged archives are refused without harm",
 "Loading any damaged network or list archive - every truncation and every single-byte corruption of a valid file - gives either a well-formed result or a null/partial result, and never crashes, aborts, hangs, accesses memory out of bounds or leaks. A network that does load from such a file is internally consistent and can be used.",
 ["inputs", "fault_sequences"],
 "all truncation points and single-byte substitutions of valid network archives, archives with non-array members and odd member names",
 "Tests never load damaged archives.",
 ["npy_array/npy_array_list.c", "src/neuralnet.c", "npy_array/npy_array.c"],
 [("archive reader", "npy_array/npy_array_list.c npy_array_list_load")])
prop("S07", "A failing or killed save never destroys the previous network file",
 "If the process is killed at any point while saving a network or array list over an existing file, or any single file operation during the save fails or is cut short, the target path afterwards holds either the complete previous file or the complete new one. A failing save never crashes the program, leaves memory and file descriptors released and the network usable, and is reported to the caller or on the warning output.",
 ["crash_points", "fault_sequences"],
 "every file-related system call issued by the save x {process killed before, killed after, error, disk full, partial write}",
 "No test injects a fault or kills the process during a save.",
 ["npy_array/npy_array_list.c", "src/neuralnet.c"],
 [("archive writing through a temporary file", "npy_array/npy_array_list.c npy_array_list_save_compressed"), ("warning on short save", "src/neuralnet.c neuralnet_save")])
prop("S08", "I/O errors and memory exhaustion while loading fail cleanly",
 "If any single file operation or memory allocation fails, or any read is cut short, while loading an array, a list or a network or while saving, the operation returns a failure or the correct result; it never returns a wrong one, crashes, leaks memory or keeps files open.",
 ["fault_sequences"],
 "every file-related system call and every library-level allocation of each load operation x {error, end of file, short read, allocation failure}",
 "No test injects read errors or allocation failures.",
 ["npy_array/npy_array.c", "npy_array/npy_array_list.c", "src/neuralnet.c"],
 [("checked reads and allocations", "npy_array/npy_array.c _read_matrix; npy_array/npy_array_list.c npy_array_list_load")])
# ---------------------------------------------------------------- training
prop("T01", "Each epoch uses every training sample exactly once, in mini-batches",
 "In every epoch of every optimizer, each training sample contributes to exactly one mini-batch; every mini-batch has the configured size except that the last holds the remainder, and each applied gradient is the mean over its mini-batch. Without shuffling samples are used in order; with shuffling every order can occur and, for equally likely generator outcomes, all orders are equally likely, independently for each epoch.",
 ["inputs", "histories", "programs"],
 "all sample counts and batch sizes up to the bound (incl. batch larger than the set and a changing sample count between epochs), all generator outcome sequences for small sets, all optimizers",
 "Tests run a few epochs with the real random generator and look only at the loss.",
 ["src/optimizer.c", "src/SGD.c", "src/RMSprop.c", "src/adagrad.c", "src/adam.c"],
 [("shuffle and batch slicing", "src/optimizer.c prepare_shuffle_pivot, fisher_yates_shuffle, optimizer_calc_batch_gradient")],
 state=[("sample permutation", "order in which samples are visited; kept per optimizer", "src/optimizer.h pivot")])
prop("T02", "SGD follows its update rule for every setting",
 "For every learning rate, decay, momentum and Nesterov setting, every network size and every sequence of mini-batches, gradient-descent training moves the parameters exactly as the documented rule prescribes (decayed learning rate, velocity accumulation, look-ahead), up to float rounding, across mini-batch and epoch boundaries.",
 ["inputs", "histories"],
 "all hyper-parameter combinations over an alphabet, batch splits, epochs and parameter counts up to the bound",
 "Tests compare a few runs to stored Keras numbers for one network size.",
 ["src/SGD.c", "src/optimizer.c", "src/matrix_operations.c"],
 [("SGD epoch", "src/SGD.c SGD_run_epoch")])
prop("T03", "RMSprop and Adagrad follow their update rules for every setting",
 "For every learning rate, decay, averaging, momentum and Nesterov setting, every network size and every sequence of mini-batches, RMSprop and Adagrad move the parameters exactly as their documented rules prescribe (accumulated or averaged squared gradients, epsilon outside the root), up to float rounding, across mini-batch and epoch boundaries.",
 ["inputs", "histories"],
 "all hyper-parameter combinations over an alphabet, batch splits, epochs and parameter counts up to the bound",
 "Tests compare a few runs to stored Keras numbers for one network size.",
 ["src/RMSprop.c", "src/adagrad.c", "src/matrix_operations.c"],
 [("RMSprop epoch", "src/RMSprop.c RMSprop_run_epoch"), ("Adagrad epoch", "src/adagrad.c adagrad_run_epoch")])
prop("T04", "Adam/AdamW follows its update rule for every setting",
 "For every learning rate, moment decay and weight-decay setting, every network size and every sequence of mini-batches, Adam moves the parameters exactly as its rule prescribes: bias-corrected first and second moments counted from the optimizer's own first step, and decoupled weight decay, up to float rounding, across mini-batch and epoch boundaries.",
 ["inputs", "histories"],
 "all hyper-parameter combinations over an alphabet, batch splits, epochs and parameter counts up to the bound",
 "Tests compare a few runs to stored numbers for one optimizer instance per process.",
 ["src/adam.c", "src/matrix_operations.c"],
 [("Adam epoch", "src/adam.c adam_run_epoch")])
prop("T05", "Reported epoch results are the metrics of the current parameters",
 "Evaluating a network on a data set yields, for every configured metric in order, its mean over exactly the given samples; running an epoch reports these for the training set and then, if and only if validation data is given, for the validation set, all computed with the parameters after the epoch. Without configured metrics the metric matching the network's own loss is reported, and nothing outside the documented number of results is written.",
 ["inputs", "histories", "configurations"],
 "all metric lists up to a length, sample counts, validation present/absent, losses, any number of other optimizers alive",
 "Tests look at one metric list and data-set size at a time.",
 ["src/evaluate.c", "src/optimizer.c"],
 [("evaluation and result layout", "src/evaluate.c evaluate; src/optimizer.c optimizer_run_epoch, optimizer_check_sanity")])
prop("T06", "Training runs do not influence each other",
 "Running several networks, optimizers and callbacks in one process, interleaved in any order, gives each exactly the results it would have had alone in a fresh process. This includes creating a second instance after the first was used or freed, and switching one optimizer between data sets of different sizes.",
 ["histories"],
 "all interleavings of the steps of two or three training runs (optimizer kinds x data sizes x callbacks) up to a depth",
 "Tests run instances one after another and compare only loosely; hidden process-wide state shows only for particular interleavings.",
 ["src/optimizer.c", "src/adam.c", "src/earlystopping.c", "src/modelcheckpoint.c", "src/neuralnet.c"],
 [("state kept per instance", "src/optimizer.c, src/adam.c, src/earlystopping.c, src/modelcheckpoint.c")],
 state=[("process-wide statics", "pivot size, bias-correction powers, best scores, default metric list", "src/optimizer.c, src/adam.c, src/earlystopping.c, src/modelcheckpoint.c")])
# ---------------------------------------------------------------- parallelism
prop("P01", "Parallel training, evaluation and batch prediction are schedule-independent",
 "For every number of threads and every interleaving of the library's parallel regions, training steps, evaluation and batch prediction give the same result as with one thread (up to the rounding of reordered sums), without data races.",
 ["schedules"],
 "all interleavings of synchronisation operations of the parallel regions for 1..N threads and small data sets",
 "Tests run with whatever schedule the machine happens to pick.",
 ["src/optimizer.c", "src/evaluate.c", "src/neuralnet_predict_batch.c", "src/adam.c"],
 [("parallel loops with reductions, parallel sections", "src/optimizer.c optimizer_calc_batch_gradient; src/evaluate.c evaluate; src/adam.c adam_run_epoch")],
 observe=["results, and every memory access via compiler instrumentation"])
prop("P02", "Threads may share one network for prediction and gradients",
 "Any number of caller threads may predict with, batch-predict with, evaluate, save, extract parameters from and compute gradients on the same network at the same time, under every interleaving: each gets the result it would get alone and no thread reads memory another is writing.",
 ["schedules"],
 "all pairs and triples of read-only operations on one shared network, all interleavings up to synchronisation equivalence",
 "Tests are single-threaded at the caller level.",
 ["src/neuralnet.c", "src/activation.c", "src/neuralnet_predict_batch.c", "src/evaluate.c"],
 [("stack-local work memory in const operations", "src/neuralnet.c neuralnet_predict, neuralnet_backpropagation")])
# ---------------------------------------------------------------- callbacks / environment
prop("C01", "Early stopping triggers exactly when patience is exhausted",
 "For every sequence of epoch scores, an early-stopping callback asks to stop if and only if more consecutive epochs than its patience have passed without the monitored value strictly improving on the best value this instance has seen (smaller or larger as configured); the request stays set once made. The monitored value is the configured position, or by default the first validation value if given and else the first training value.",
 ["histories", "inputs"],
 "all score sequences over an ordered alphabet up to a length x patience x direction x monitored position x any number of instances",
 "Tests play two or three score sequences with one instance.",
 ["src/earlystopping.c"],
 [("patience counter", "src/earlystopping.c earlystopping_callback_run")],
 state=[("best score and epochs since improvement", "must belong to the instance", "src/earlystopping.c")])
prop("C02", "The checkpoint file always holds the best network so far",
 "For every sequence of epoch scores, after each epoch the checkpoint file contains exactly the parameters the network had at the epoch with the best monitored value seen by this callback (first such epoch on ties), and the file is rewritten only on strict improvement. File names are used literally, and several checkpoint callbacks do not disturb each other.",
 ["histories", "inputs"],
 "all score sequences over an ordered alphabet up to a length x direction x monitored position x several instances",
 "Tests check that a file appears after a couple of epochs.",
 ["src/modelcheckpoint.c", "src/neuralnet.c"],
 [("best-score tracking and save", "src/modelcheckpoint.c modelcheckpoint_callback_run")])
prop("C03", "The training log is complete and epoch numbers continue across runs",
 "For every history of training runs logging to one file, each epoch appends exactly one line carrying its epoch number and every metric (training, then validation) with its value; a new run without an explicit start epoch continues with the number after the last logged epoch, whatever the file's length or a partially written last line. No number of metrics, values or prior file content makes the logger crash or write out of bounds.",
 ["histories", "inputs", "crash_points"],
 "all run histories up to a depth, metric counts up to the bound, all prefixes (torn tails) of a log file, arbitrary small prior contents",
 "Tests log a few lines to a fresh file.",
 ["src/logger.c"],
 [("log line formatting, last-epoch recovery", "src/logger.c logger_callback_run, find_last_epoch_from_logfile")])
prop("C04", "Progress reporting is monotone, complete and bounded",
 "During every epoch the progress callback is called once per mini-batch with the number of samples processed so far, strictly increasing and ending at the total; the built-in progress bar never prints more columns than the terminal has, shows the floor of the percentage with a bar proportional to it, prints nothing when output is not a terminal, and ends the line exactly at completion.",
 ["inputs"],
 "all (done, total) pairs, label lengths and terminal widths up to the bound; all optimizers, sample counts and batch sizes",
 "No test runs with a terminal.",
 ["src/progress.c", "src/SGD.c", "src/RMSprop.c", "src/adagrad.c", "src/adam.c"],
 [("progress bar", "src/progress.c progress_ascii"), ("progress calls", "src/*_run_epoch")])
prop("C05", "User-supplied activations from shared libraries behave like built-in ones",
 "An activation named symbol@library resolves to that symbol and, for training, to its derivative if the library has one; networks using it predict, train, save and load like with built-in activations, and its name is reported back. Names that do not resolve (no library, no symbol, no '@', arbitrarily long names) fall back to the identity with a warning, for any sequence of lookups, without crash, leak or effect on earlier resolved ones.",
 ["histories", "inputs"],
 "all sequences of lookups over resolvable and unresolvable names up to a depth, name lengths around internal limits",
 "Tests resolve one or two names.",
 ["src/activation.c", "src/neuralnet.c"],
 [("dynamic symbol records", "src/activation.c get_activation_func_dynamic")],
 state=[("list of resolved symbols", "process-wide", "src/activation.c records")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
