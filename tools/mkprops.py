#!/usr/bin/env python3
"""Source of properties.jsonl (kept as python so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A prediction is the layer-by-layer function the network describes",
 "For every valid network (any number of layers, any layer sizes, any mix of activations) and every finite input, predicting gives, up to floating-point rounding, act(bias + input x weight) applied layer after layer, with weights stored row-major as (n_input, n_output). The result does not depend on how the input or output buffer is aligned nor on what the output buffer or the stack held before, and repeating the call repeats the bits. A prediction writes exactly the n_output result values and nothing else: network, input and neighbouring memory keep their bytes.",
 ["inputs", "configurations"], "all layer counts/sizes, activations, parameter values, inputs, buffer offsets, SIMD builds (AVX-512, AVX2, AVX, plain C)",
 "The tests predict on a handful of fixed networks with aligned buffers in one build; remainders of every vector width, every pointer offset and every ISA path are a product space that examples do not cover.",
 ["src/neuralnet.c", "src/matrix_operations.c", "src/activation.c", "src/simd.h"],
 [("neuralnet_predict", "src/neuralnet.c"), ("vector_matrix_multiply", "src/matrix_operations.c"), ("activation functions", "src/activation.c")],
 ["neuralnet_predict() output", "guard pages and canaries around every buffer", "byte snapshots of parameters and input"])

prop("C02", "Batch prediction equals predicting each sample on its own",
 "For every network, number of samples (including 0 and 1) and thread count, batch prediction fills row i of the output with the prediction of input row i, up to floating-point rounding, in the threaded build and in the BLAS build. Every row is produced exactly once, whatever the batch size or the widths of the layers, and nothing outside n_samples*n_output output values is written.",
 ["inputs", "configurations", "schedules"], "all networks, batch sizes from 0 up to sizes that make the BLAS build split its work, thread counts, buffer offsets",
 "The existing tests call batch prediction on a few fixed shapes; row offsets that break alignment, splits of the work memory and thread partitions are never varied.",
 ["src/neuralnet_predict_batch.c", "src/neuralnet.c"],
 [("neuralnet_predict_batch", "src/neuralnet_predict_batch.c"), ("divide and conquer on the work memory", "src/neuralnet_predict_batch.c USE_CBLAS branch")],
 ["neuralnet_predict_batch() output rows against a double precision reference", "canaries around the output"])

prop("C03", "Backpropagation returns the exact gradient of the loss for a sample",
 "For every network whose hidden layers use any of the built-in activations except softmax and whose loss is a supported pairing (softmax only as output with categorical_crossentropy; binary_crossentropy with sigmoid output; any other loss with any non-softmax output), backpropagation returns, up to rounding, the derivative of that sample's loss with respect to every parameter, laid out bias then row-major weight for each layer from input to output. It writes every one of the n_parameters gradient entries and nothing else, whatever the gradient buffer or stack held before, and leaves network, input and target unchanged. The loss set last decides; setting a loss that does not fit the output activation (or is unknown) is announced by a warning, setting one that fits is not.",
 ["inputs", "configurations"], "all layer counts and sizes (every vector remainder and every misaligned bias offset inside the gradient), all supported loss/activation pairings, all SIMD builds",
 "test_gradient checks a few fixed architectures numerically with a tolerance; alignment of inner gradient blocks depends on the sizes of all earlier layers and most combinations are never executed.",
 ["src/neuralnet.c", "src/loss.c", "src/activation.c", "src/matrix_operations.c"],
 [("neuralnet_backpropagation", "src/neuralnet.c"), ("neuralnet_set_loss pairing rules", "src/neuralnet.c"), ("matrix_vector_multiply / vector_vector_outer", "src/matrix_operations.c")],
 ["neuralnet_backpropagation() gradient against a double precision derivation", "finite differences of the double precision loss", "canaries around the gradient"])

prop("C04", "Activations and their derivatives are accurate for every finite input",
 "Each named activation (softplus, softsign, hard_sigmoid, exponential, linear, relu, softmax, sigmoid, tanh) maps every finite input to its mathematical value within single-precision accuracy, element by element (softmax over the whole vector, non-negative and summing to one), for every vector length and alignment, without overflowing to inf or NaN unless the true value exceeds the float range. Its derivative function multiplies the given gradient in place by the derivative expressed in the activation's output, and looking up name -> function -> name and function -> derivative always agree.",
 ["inputs", "configurations"], "all finite floats, vector lengths, buffer offsets, SIMD builds",
 "The generated tests use a few hundred fixed random numbers in a narrow range with fixed lengths; saturation regions, extremes, lengths and alignments are not covered.",
 ["src/activation.c", "src/activation.h"],
 [("get_activation_func / get_activation_name / get_activation_derivative", "src/activation.c"), ("exp256_ps vector exponential", "src/activation.c")],
 ["values written by each activation compared with libm double", "canaries around the vectors"])

prop("C05", "Losses and metrics equal their published definitions, gradients match values",
 "Every named metric returns its documented value for a sample (means over the n outputs for the regression metrics and both crossentropies; accuracy as argmax match, or fraction of correctly thresholded outputs for binary_accuracy), and every named loss writes the derivative of the metric of the same name with respect to each prediction (categorical_crossentropy in its sum form, and both crossentropies in the form combined with their softmax/sigmoid output). This holds for every output width and all finite predictions and targets in the loss's domain; crossentropy values stay finite even at predictions of exactly 0 or 1; unknown names are reported and give no function.",
 ["inputs"], "all output widths, predictions and targets in domain including 0, 1, ties, negatives and tiny values",
 "The generated tests compare a few hundred random vectors with Keras-like numbers for n=1..some; signs, domain edges and widths are sampled only there.",
 ["src/loss.c", "src/metrics.c"],
 [("get_loss_func", "src/loss.c"), ("get_metric_func", "src/metrics.c")],
 ["metric return values, loss gradient vectors", "finite difference of the metric as oracle for the loss"])

prop("C06", "Reported results are the mean metrics over the whole set",
 "Evaluating a network on a data set returns, for each requested metric in order, the mean over all samples of that metric of the network's predictions, for any number of samples and threads. After every epoch the results array holds the mean metrics of the network as it is after the epoch's last update: first those of the training set, in metric order, then, when a validation set is given, those of the validation set.",
 ["inputs", "configurations", "schedules"], "all sample counts, metric lists, thread counts, with and without validation data",
 "Tests look at one or two data sets; the mapping of results, averages for counts that do not divide and thread partitions are not varied.",
 ["src/evaluate.c", "src/optimizer.c", "src/metrics.c"],
 [("evaluate", "src/evaluate.c"), ("optimizer_run_epoch result order", "src/optimizer.c")],
 ["results array, re-evaluated with a double precision reference from the saved parameters"])

prop("C07", "Each epoch visits every training sample exactly once in batches",
 "In one epoch every training sample contributes to exactly one update: ceil(n/batch_size) updates are made, each on the mean gradient of its batch, the last one holding the remaining samples, and any batch size from 1 to beyond n works. Without shuffle the samples are taken in file order every epoch; with shuffle the order is a fresh random permutation of the whole set in every epoch, which pairs every input with its own target. Training data is never modified, and the progress callback is told the number of samples done after every batch, rising to n exactly once.",
 ["inputs", "configurations", "histories"], "all sample counts, batch sizes, shuffle settings, optimizers, thread counts and numbers of epochs",
 "Tests only train to convergence on one configuration, which tolerates lost, repeated or mispaired samples.",
 ["src/optimizer.c", "src/optimizer.h", "src/SGD.c", "src/adam.c", "src/RMSprop.c", "src/adagrad.c"],
 [("optimizer_calc_batch_gradient pivot handling", "src/optimizer.c"), ("prepare_shuffle_pivot / fisher_yates_shuffle", "src/optimizer.c"), ("per-optimizer epoch loops", "src/*.c")],
 ["loss function pointer wrapper records which target rows were used", "progress callback", "mprotect()ed read-only training data"],
 [("pivot", "order in which samples are used", "optimizer_t.pivot")])

prop("C08", "Each optimizer applies its documented update rule exactly",
 "Given the mean batch gradient at the current parameters, every step of SGD (plain, momentum, Nesterov, with learning-rate decay), RMSprop (with momentum), Adagrad, Adam and AdamW changes the parameters, up to rounding, as its published formula prescribes with the properties the user set (those left out having the documented defaults, e.g. learning rate 0.01 for SGD and Adagrad, 0.001 for RMSprop and Adam), for every number of steps and across epochs. Optimizer state (velocity, squared averages, step counters) starts at zero, persists across epochs and is used by nothing else, and all parameters, including the last few of any count, are updated.",
 ["configurations", "histories", "inputs"], "all hyperparameter settings, network sizes (all parameter-count remainders), batch sizes and numbers of epochs",
 "Tests only check that training lowers a loss; a wrong coefficient, a skipped tail of the parameter vector or a lost state still converges.",
 ["src/SGD.c", "src/adam.c", "src/RMSprop.c", "src/adagrad.c", "src/optimizer.c", "src/neuralnet.c"],
 [("SGD_run_epoch", "src/SGD.c"), ("adam_run_epoch / adamw", "src/adam.c"), ("RMSprop_run_epoch", "src/RMSprop.c"), ("adagrad_run_epoch", "src/adagrad.c")],
 ["parameters snapshotted after every batch (progress callback)", "interval-arithmetic replica of the update rule"])

prop("C09", "Networks, optimizers and callbacks in one process do not affect each other",
 "Training several networks with several optimizers and callbacks in one process, interleaved in any order of epochs, gives each of them the parameters, results, stop decisions, checkpoints and log files it would have had alone: exactly when samples are not shuffled, and with every guarantee about epochs intact when they are. Creating, using or freeing one instance never changes or invalidates another.",
 ["histories", "configurations"], "all interleavings of creation, epochs, callbacks and destruction over several instances with different sizes and settings",
 "Every test process trains a single network with a single optimizer and one callback of each kind.",
 ["src/optimizer.c", "src/adam.c", "src/earlystopping.c", "src/modelcheckpoint.c", "src/logger.c", "src/callback.h"],
 [("per-instance state in the optimizer/callback structs", "src/optimizer.h, src/callback.h")],
 ["bitwise comparison of solo and interleaved runs (single thread, no shuffle)"])

prop("C10", "Saving and loading a network restores it bit for bit",
 "For every network, saving to a file and loading it gives a network with the same layers, sizes, activations and bit-identical parameters (including NaN, infinities, denormals and signed zeros), hence bit-identical predictions; the file is also readable by numpy as float32 weights (n_input, n_output) and biases plus an activation-name array. A file of that layout written by numpy (compressed or not, activation names anywhere in the list and of any length, fewer names meaning linear) loads to the network it describes, and the printf-style file name is formatted as printf would.",
 ["inputs", "configurations"], "all architectures, activation mixes, parameter bit patterns, file names and numpy writers",
 "Tests round-trip one or two networks; names, many layers (more than 10 entries), bit patterns and foreign writers are not varied.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c"],
 [("neuralnet_save", "src/neuralnet.c"), ("neuralnet_load", "src/neuralnet.c")],
 ["files on disk parsed by numpy", "loaded network compared bytewise"])

prop("C11", "A malformed model file is refused, never a crash or a wrong network",
 "Loading a missing, truncated, corrupted or inconsistent model file (wrong element type or byte order, wrong dimensions, weights and biases that do not match each other or the next layer, odd number of arrays, missing or ill-formed activation names) returns NULL without reading or writing outside its buffers, aborting, hanging or leaking. If it returns a network, that network is the one the file describes and can be used for prediction.",
 ["inputs"], "all byte strings as file content, in particular all structured corruptions of valid model files",
 "No existing test loads an invalid model.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c"],
 [("validation in neuralnet_load", "src/neuralnet.c")],
 ["return value, process status under ASan/UBSan, allocation accounting"])

prop("C12", "Arrays survive npy/npz save and load unchanged and interoperate with numpy",
 "For every array of a supported element type, element size, memory order and shape of 0 to 8 dimensions, saving as .npy, as a member of a plain .npz or of a compressed .npz and loading it (from file or memory map, or as part of a list in the saved order and with the saved names) returns the same type, element size, order, shape and data bytes. Files written by numpy load to the same values and files written here load in numpy to the same values; a compressed archive is stored with the requested compression and never differs in content. The data in a written file start at a multiple of 64 bytes, npy_array_dump describes the array it is given, and freeing an array gives back its memory or mapping in full.",
 ["inputs", "configurations"], "all dtypes, shapes, orders, header lengths, entry names and counts, compression methods, load paths",
 "Tests cover a couple of fixed 2-D arrays and one archive.",
 ["npy_array/npy_array.c", "npy_array/npy_array_list.c"],
 [("npy_array_save / load / mmap", "npy_array/npy_array.c"), ("npy_array_list_save / save_compressed / load", "npy_array/npy_array_list.c")],
 ["round trip bytes", "numpy reading and writing the same files"])

prop("C13", "A malformed npy/npz file is refused without memory errors",
 "Opening any byte string as an array, memory-mapped array or archive either returns arrays that the bytes describe, with data that is wholly inside the file, or fails by returning NULL (or leaving the bad archive member out); it never reads or writes out of bounds, aborts, hangs, interprets file content as a format string, or leaks. A file whose data is shorter than its header announces is refused.",
 ["inputs"], "all byte strings; in particular structured mutations of headers, truncations at every length, hostile archive entry names and sizes",
 "No existing test opens an invalid array file.",
 ["npy_array/npy_array.c", "npy_array/npy_array_list.c"],
 [("_read_npy_header and friends", "npy_array/npy_array.c"), ("npy_array_list_load", "npy_array/npy_array_list.c")],
 ["return value, process status under ASan/UBSan, independent python parser verdict"])

prop("C14", "A failed or interrupted save never destroys the model already on disk",
 "When saving a network over an existing model file is interrupted at any point, or any write, rename or open on the way fails, or memory runs out on the way, the file name afterwards refers to either the complete old model or the complete new one, never to a partial file. After a failing system call the process carries on; when the old one remains, a message says that saving failed. A save that meets no failure leaves exactly the requested file and no temporary ones.",
 ["crash_points", "fault_sequences"], "every system call of a save as crash point or failing call and every allocation failing, over several architectures",
 "No test injects a fault or kills a save.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c"],
 [("neuralnet_save through a zip archive replaced at close", "src/neuralnet.c, npy_array/npy_array_list.c")],
 ["directory content after the fault, loaded with neuralnet_load()"])

prop("C15", "Threads never race and never change the outcome",
 "The library's own parallel regions are free of data races for every thread count and schedule, and their results equal the single-threaded ones up to the rounding of summation order. Several application threads may predict, batch-predict, evaluate and backpropagate with the same network, and train different networks, at the same time and each obtains what it would have obtained alone.",
 ["schedules", "configurations"], "all schedules and thread counts, with and without shuffle, all optimizers",
 "Tests run one natural schedule and cannot see a race that happens not to bite.",
 ["src/optimizer.c", "src/evaluate.c", "src/neuralnet_predict_batch.c", "src/neuralnet.c"],
 [("omp parallel for with reduction", "src/optimizer.c"), ("omp parallel in evaluate", "src/evaluate.c")],
 ["ThreadSanitizer reports over an instrumented OpenMP runtime with injected delays", "values compared with a single-threaded run"])

prop("C16", "Valid use never touches foreign memory and frees everything it took",
 "Any valid sequence of creating, initialising, training, evaluating, saving, loading and freeing networks, optimizers, callbacks and arrays performs no out-of-bounds, use-after-free, uninitialised or otherwise undefined operation, and after everything is freed the library holds no memory, mapping or open file that it held more of than at the start.",
 ["histories", "configurations", "inputs"], "all sequences of API calls and all sizes",
 "Tests run without sanitizers and exit without looking at what is left allocated.",
 ["src/neuralnet.c", "src/optimizer.c", "src/optimizer.h", "src/callback.h", "npy_array/npy_array.c"],
 [("*_free functions", "src/*.c, npy_array/*.c")],
 ["ASan/UBSan, own accounting of malloc/free/mmap and file descriptors, poisoned stack and heap"])

prop("C17", "Construction succeeds completely or returns NULL and leaves nothing behind",
 "Creating a network with impossible sizes (layer count or sizes below one) returns NULL with a message; an unresolvable activation name gives a linear layer with a warning. When memory runs out at any allocation while creating or loading a network or loading an array or archive, the call reports failure (NULL; an archive may also come back without the members that did not fit) without crashing, without leaking what it had allocated and without damaging other objects.",
 ["fault_sequences", "inputs"], "every allocation of each constructor or loader failing, once or from then on; all invalid dimension tuples",
 "No test makes an allocation fail or passes invalid sizes.",
 ["src/neuralnet.c", "src/optimizer.h", "npy_array/npy_array.c", "npy_array/npy_array_list.c"],
 [("error paths of neuralnet_create / neuralnet_load / npy_array_load", "src/neuralnet.c, npy_array/*.c")],
 ["return values and allocation accounting under injected malloc/calloc/posix_memalign failures"])

prop("C18", "Initialisation draws every weight from the prescribed distribution",
 "Initialising sets every bias to zero and every weight of every layer to a finite random value: uniform within +-sqrt(6/(n_in+n_out)) for xavier, normal with standard deviation sqrt(2/n_in) for kaiming, chosen per layer by the given name or else by its activation (sigmoid, tanh, softmax, hard_sigmoid, softsign: xavier; relu, softplus: kaiming; others: unit normal with a warning). No weight keeps its old value, and the same program with the same random seed gives the same network.",
 ["inputs", "configurations"], "all layer shapes, activations, initialiser lists, random seeds and random-number sequences",
 "Tests use initialisation but never look at the values drawn.",
 ["src/neuralnet.c"],
 [("neuralnet_initialize", "src/neuralnet.c"), ("random_uniform / random_normal", "src/neuralnet.c")],
 ["all weights after initialisation, moments and Kolmogorov-Smirnov distance, hostile rand() sequences"])

prop("C19", "Early stopping fires exactly when patience runs out",
 "With early stopping, training goes on until the monitored result (by default the first metric of the validation set, or of the training set when there is none; smaller or, if so configured, larger being better) has failed to improve on its best value for more than `patience` epochs in a row, and is told to stop at exactly that epoch, and stays told; any strict improvement restarts the count. It never stops earlier or later, for any sequence of results.",
 ["histories"], "all sequences of results and patience values",
 "Tests run one training with early stopping, whose stopping epoch nobody checks.",
 ["src/earlystopping.c", "src/callback.h"],
 [("earlystopping_callback_run", "src/earlystopping.c")],
 ["stop flag after every epoch for scripted result sequences, against a reference automaton"])

prop("C20", "The model checkpoint always holds the best epoch seen",
 "With the model checkpoint callback, after every epoch the checkpoint file holds exactly the network of the epoch with the best monitored result so far (by default the first metric of the validation set, or of the training set when there is none; smaller or, if so configured, larger being better), is rewritten only on strict improvement, and is a complete loadable model under exactly the file name given.",
 ["histories", "inputs"], "all sequences of results, directions, networks and file names",
 "Tests never read a checkpoint back.",
 ["src/modelcheckpoint.c", "src/neuralnet.c"],
 [("modelcheckpoint_callback_run", "src/modelcheckpoint.c")],
 ["file bytes after every scripted epoch"])

prop("C21", "The training log records every epoch once, in order, with its results",
 "The logger appends exactly one line per epoch holding a consecutive epoch number and every result of that epoch under its metric's name, whatever the number and length of metric names. An existing log is never truncated: numbering continues after its last line, and an empty, one-line or foreign file (numbering then starts at the configured number) is handled without crashing.",
 ["histories", "inputs", "configurations"], "all prior file contents, metric lists, with/without validation, numbers of epochs",
 "Tests do not read the log.",
 ["src/logger.c"],
 [("logger_callback_run", "src/logger.c")],
 ["log file parsed after every epoch"])

prop("C22", "Parameters are read, counted and updated in one consistent layout",
 "The number of parameters is the sum of (n_input+1)*n_output over the layers, reading the parameters writes exactly that many values in the order bias, row-major weight, layer by layer, and updating with a vector adds element i to exactly the parameter that reading returns at position i. Nothing outside these values is read or written, whatever the alignment of the vectors.",
 ["inputs", "configurations"], "all architectures, vector values and buffer offsets, SIMD builds",
 "Tests use these only inside training, where a shifted layout would be self-consistent.",
 ["src/neuralnet.c", "src/neuralnet.h", "src/matrix_operations.c"],
 [("neuralnet_update / neuralnet_get_parameters / neuralnet_total_n_parameters", "src/neuralnet.c, src/neuralnet.h")],
 ["bitwise comparison of parameters before/after, canaries"])

prop("C23", "Custom activations from shared libraries behave like built-in ones",
 "An activation named symbol@library is loaded from that library and used for prediction, its symbol_derivative for training; the name survives save and load, and a missing library or symbol gives a warning and a linear layer, a missing derivative only a warning. Loading many networks with the same or different custom activations works, in any order and for any length of name, and everything is released at exit.",
 ["inputs", "configurations", "histories"], "all library/symbol combinations, name lengths, numbers and orders of lookups",
 "The one example loads a single library once.",
 ["src/activation.c", "src/neuralnet.c"],
 [("get_activation_func_dynamic and the record list", "src/activation.c")],
 ["predictions/gradients with generated shared libraries, names in the saved file"])

prop("C24", "Vector kernels compute their formula on every element and no other",
 "Each vector and matrix kernel of the library computes its documented formula, up to rounding, on exactly the n (or rows x columns) elements it is given, for every size and every operand alignment it accepts, and writes no other byte. The AVX-512, AVX2, AVX, plain C and BLAS builds agree up to rounding.",
 ["inputs", "configurations"], "all sizes through several vector widths, all operand offsets, all builds",
 "Tests exercise the kernels only through a few fixed shapes in the one build the machine selects.",
 ["src/matrix_operations.c", "src/matrix_operations.h", "src/simd.h"],
 [("vector_matrix_multiply, matrix_vector_multiply, vector_* kernels", "src/matrix_operations.c")],
 ["kernel outputs against double precision, guard pages directly behind the last element"])

prop("C25", "The progress bar reports the epoch truthfully",
 "The ASCII progress display shows, for every n of total that training reports, a bar of constant width filled in proportion to n/total that is never over-full and reaches full exactly at the end, with the label given. It handles any total, including one and sizes smaller or larger than the bar, without undefined operations.",
 ["inputs", "histories"], "all totals, batch sizes and labels",
 "No test looks at the progress output.",
 ["src/progress.c", "src/progress.h"],
 [("progress_ascii", "src/progress.c")],
 ["bytes written to the terminal"])

prop("C26", "Optimizers, losses, metrics and callbacks of the user's own work as documented",
 "An optimizer made with OPTIMIZER_DECLARE/OPTIMIZER_DEFINE receives the network and properties it was created with (without metrics: the metric of the loss), its run_epoch is called once per epoch with the samples in an order that is a permutation (file order without shuffling), and its own free function once. For it, optimizer_calc_batch_gradient gives the mean gradient of exactly the next batch at the current parameters, advances the position by the batch's size, and changes nothing else. A metric of the user's own is called exactly once per sample and epoch for every set and its mean reported in its place; a loss of the user's own is what backpropagation differentiates; callbacks made with CALLBACK_DEFINE are run with exactly the optimizer, results and validation flag they are given, and keep their own state.",
 ["inputs", "configurations", "histories"], "all networks, batch sizes, numbers of samples, thread counts, combinations of built-in and own metrics, losses and callbacks",
 "No test defines an optimizer, metric, loss or callback of its own; these interfaces are only exercised by the built-in implementations, which all use them in the same way.",
 ["src/optimizer.h", "src/optimizer.c", "src/callback.h", "src/evaluate.c", "src/neuralnet.c"],
 [("OPTIMIZER_DEFINE / optimizer_free", "src/optimizer.h"), ("optimizer_calc_batch_gradient / optimizer_check_sanity", "src/optimizer.c"), ("CALLBACK_DEFINE / callback_run", "src/callback.h"), ("evaluate", "src/evaluate.c")],
 ["calls received by the user-defined functions, with their arguments", "batch gradient against the mean of per-sample gradients", "results against the mean of the user's metric"])

prop("C27", "Training, checkpoints, logs and reloaded models tell the same story",
 "In a training run as in the examples (data from npy files, loaded or mapped; any optimizer; early stopping, checkpoint and logger run after every epoch, in any order), the checkpoint when loaded has the parameters of the best epoch and again gets the best score reported, the log has one line per epoch with the results reported, training is stopped exactly when patience runs out, the data stays as it was, and the final network predicts the same after saving and loading. Training with plain SGD that is resumed from a network saved after any epoch reports the same results and ends with the same parameters as if never interrupted. The example programs report results that are true of the data they read and the networks, logs and arrays they leave behind.",
 ["histories", "configurations"], "all networks, losses, optimizers, data sets, batch sizes, lengths of training and points of interruption",
 "Each part has tests of its own at most; no test runs them together, reloads a checkpoint to score it again, or resumes training.",
 ["src/optimizer.c", "src/evaluate.c", "src/modelcheckpoint.c", "src/earlystopping.c", "src/logger.c", "src/neuralnet.c", "npy_array/npy_array.c"],
 [("optimizer_run_epoch", "src/optimizer.c"), ("modelcheckpoint_callback_run", "src/modelcheckpoint.c"), ("neuralnet_save / neuralnet_load", "src/neuralnet.c"), ("logger_callback_run", "src/logger.c")],
 ["results of every epoch, parameters of the loaded checkpoint and its re-evaluated score", "log file", "resumed run compared bit by bit"])

prop("C28", "However it is built, it is the same library",
 "Whichever way the sources allow the library to be built (every instruction set, with and without CBLAS and whatever its work memory, with and without OpenMP, assertions or verbose output, optimised or not, by gcc or clang, as static or shared library installed by make install, or for prediction only), it builds, links and behaves the same: models and arrays written by one build are read bit for bit the same by every other, predictions of the same model and input agree up to rounding, and all other properties hold for it as well.",
 ["inputs", "configurations"], "all networks and inputs, all supported builds",
 "The tests run in a single build; a mistake that only shows with other flags (side effects in assertions, code under an #ifdef, other instruction sets, what is installed) compiles and passes them.",
 ["src/configure", "src/Makefile.in", "src/neuralnet.h", "src/neuralnet.c", "src/simd.h", "src/matrix_operations.c", "src/neuralnet_predict_batch.c", "npy_array/npy_array.c"],
 [("PREDICTION_ONLY", "src/neuralnet.h"), ("neuralnet_predict_batch (both versions)", "src/neuralnet_predict_batch.c"), ("simd.h", "src/simd.h")],
 ["models and arrays written by each build and loaded by every other", "predictions of each build against one double precision reference"])
prop("C29", "Failing reads and writes of arrays and networks are noticed",
 "When any system call fails or falls short while an array or a list of arrays is saved, or an array, a list or a network is loaded, the process carries on, no file stays open and what it is told is true. npy_array_save says so when the file does not hold the array; npy_array_list_save and npy_array_list_save_compressed return the number of arrays in the archive, or 0 with a message and the old file untouched. npy_array_load, npy_array_mmap and neuralnet_load return nothing (with a message) or the complete content; npy_array_list_load returns only complete arrays, under their names and in their order, with a message when some are missing. A read or write that only falls short is continued. The next save or load, when nothing fails, is complete again.",
 ["fault_sequences", "inputs"], "every system call of each save and load failing, falling short or being the first of many that fail; all arrays, lists, compressions and networks",
 "No test injects a fault; on a machine where the disk never fills these paths never run.",
 ["npy_array/npy_array.c", "npy_array/npy_array_list.c", "src/neuralnet.c"],
 [("npy_array_save / npy_array_load / npy_array_mmap", "npy_array/npy_array.c"), ("npy_array_list_save_compressed / npy_array_list_load", "npy_array/npy_array_list.c"), ("neuralnet_load", "src/neuralnet.c")],
 ["the file read back after the fault", "return value and messages", "open files of the process"])

drop = set()
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if p["id"] in drop: continue
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
