"""The checks: what runs for each property."""
import core
PROPS = {}
def prop(id, level, rule, assumptions, jobs=None, run=None):
    PROPS[id] = dict(level=level, rule=rule, assumptions=assumptions, jobs=jobs, run=run)
def q(ctx, quick, thorough): return thorough if ctx.thorough else quick
def J(harness, mode, variant, n, shards=8, **kw): return dict(harness=harness, mode=mode, variant=variant, n=n, shards=shards, **kw)
FP = "single precision results are accepted within a running error bound of a double precision evaluation"

def j_c01(ctx):
    m = q(ctx, 1, 20)
    return [J("h_predict", "predict", v, k * m) for v, k in
            [("native", 4000), ("avx2fma", 1500), ("avx2", 1500), ("avx", 2000), ("sse", 2000), ("blas", 1500), ("asan", 800), ("asan_avx2", 400), ("asan_sse", 400)]]
prop("C01", "exploration", "a case is a random network (layers, sizes around SIMD multiples, activations, parameters) predicted at three input/output offsets, twice each; distinct by architecture and offsets, all with guarded buffers",
     [FP], jobs=j_c01)

def j_c02(ctx):
    m = q(ctx, 1, 20)
    return [J("h_predict", "batch", v, k * m, timeout=240) for v, k in
            [("native", 1600), ("avx2fma", 500), ("avx", 500), ("sse", 500), ("blas", 1200), ("blas_small", 500), ("asan", 300), ("asan_blas", 300)]] + \
           [J("h_predict", "big", v, 2, 2, weight=9) for v in ("native", "blas", "asan")]
prop("C02", "exploration", "a case is a random network, number of samples, thread count and pair of buffer offsets; distinct by all of these",
     [FP], jobs=j_c02)

def j_c03(ctx):
    m = q(ctx, 1, 20)
    return [J("h_grad", "grad", v, k * m) for v, k in
            [("native", 4000), ("avx2fma", 1200), ("avx2", 800), ("avx", 1500), ("sse", 1500), ("blas", 1200), ("asan", 600), ("asan_avx2", 300), ("asan_sse", 300)]] + [J("h_grad", "pairing", v, k * m, 2) for v, k in [("native", 3000), ("asan", 300)]]
prop("C03", "exploration", "a case is a random network with a supported loss, input and target at random offsets; distinct by architecture, loss and offsets; or a sequence of losses set for a network",
     [FP, "at kinks (relu at 0, absolute errors at 0) either one-sided derivative is accepted"], jobs=j_c03)

def j_c04(ctx):
    m = q(ctx, 1, 15)
    js = [J("h_act", "act", v, k * m) for v, k in
          [("native", 12000), ("avx2fma", 4000), ("avx2", 4000), ("avx", 4000), ("sse", 4000), ("asan", 2500), ("asan_avx2", 1500), ("asan_sse", 1500)]]
    js += [J("h_act", "lookup", v, 1, 1) for v in ("native", "asan")]
    if ctx.thorough: js += [J("h_act", "sweepall", v, 4096, 64, timeout=800, weight=5) for v in ("native", "avx2", "sse")]
    else: js += [J("h_act", "sweep", v, 4096, 16) for v in ("native", "sse")]
    return js
prop("C04", "exploration", "a case is an activation applied to a vector of a random length, offset and style of values, then its derivative; distinct by these; plus a sweep over the floats (all of them in the thorough tier)",
     ["single-precision accuracy: a few units in the last place (absolute 5e-7 for tanh, 2.5e-7 for hard_sigmoid, values below 1e-37 may be flushed)"], jobs=j_c04)

def j_c05(ctx):
    m = q(ctx, 1, 20)
    return [J("h_loss", "loss", v, k * m) for v, k in [("native", 20000), ("avx", 6000), ("sse", 6000), ("asan", 4000)]] + \
           [J("h_loss", "names", v, 1, 1) for v in ("native", "asan")]
prop("C05", "exploration", "a case is a metric (and the loss of its name) on a random width, style of values and offsets; distinct by these",
     ["sums of n terms are accepted within n units of rounding", "at exactly met targets either sign of an absolute error's derivative is accepted", "predictions of exactly 0.5 are not used for binary accuracy"], jobs=j_c05)

def j_c06(ctx):
    m = q(ctx, 1, 20)
    return [J("h_train", "evaluate", v, k * m) for v, k in [("native", 1500), ("sse", 500), ("blas", 700), ("asan", 250), ("asan_blas", 150)]] + \
           [J("h_train", "results", v, k * m) for v, k in [("native", 1200), ("blas", 400), ("asan", 150)]] + [J("h_train", "big", "native", 3, 1, weight=9)]
prop("C06", "exploration", "a case is a data set evaluated with a list of metrics (or an epoch of training followed by that); distinct by network, sizes, metrics, threads and offsets",
     [FP, "the mean of up to 4096 values may carry the rounding of a single precision sum"], jobs=j_c06)

def j_c07(ctx):
    m = q(ctx, 1, 20)
    return [J("h_train", "visits", v, k * m) for v, k in [("native", 2500), ("sse", 800), ("blas", 600), ("asan", 300), ("asan_sse", 200)]] + [J("h_train", "bigtrain", "native", q(ctx, 1, 2), 1, weight=9)]
prop("C07", "exploration", "a case is one epoch of training with a random optimizer, number of samples, batch size, shuffling, validation set and thread count; distinct by these and the network",
     [FP, "batches are told apart by their size; the order of gradients within one batch is free"], jobs=j_c07)

def j_c08(ctx):
    m = q(ctx, 1, 20)
    return [J("h_train", "rule", v, k * m) for v, k in [("native", 2500), ("avx", 700), ("sse", 800), ("blas", 500), ("asan", 250)]]
prop("C08", "exploration", "a case is one epoch of training whose steps are compared with the update rule; distinct by optimizer, its properties, network, number of samples and batch size",
     [FP, "learning-rate decay multiplies the current rate by 1/(1+decay*t) at step t as in the source", "epsilon is 1e-7 (RMSprop, Adagrad) or 1e-8 (Adam), outside the square root; weight decay is not scaled by the learning rate"], jobs=j_c08)

def j_c09(ctx):
    m = q(ctx, 1, 20)
    return [J("h_multi", "multi", v, k * m) for v, k in [("native", 700), ("avx", 200), ("sse", 300), ("asan", 200)]]
prop("C09", "exploration", "a case is a random schedule of the actions (create, train an epoch, run callbacks, use, free) of 2-5 instances, each also run alone in a forked process; distinct by instances and schedule",
     ["no shuffling (the samples' order then comes from the process-wide rand()), one OpenMP thread, so that results can be compared bit for bit", "not with CBLAS, whose results may depend on where its operands lie in memory"], jobs=j_c09)

def r_c12(ctx):
    import npymon
    npymon.run_c12(ctx, q(ctx, 700, 12000), [("native", 1), ("asan", 0.4)])
prop("C12", "exploration", "a case is a list of arrays of random types, orders and shapes, written by numpy and by the library and read by both; distinct by type, element size, rank, order, first dimension and byte order",
     ["numpy (and Python's zipfile) are right about the format", "element sizes above 0; at most 8 dimensions"], run=r_c12)
def r_c13(ctx):
    import npymon
    npymon.run_c13(ctx, q(ctx, 6000, 80000), [("asan", 1), ("native", 1)])
prop("C13", "fault_enumeration", "a case is a file (mutated or crafted npy or npz) opened as array, map and archive three times each; distinct by content (a sample of them)",
     ["headers outside the format of numpy are only judged on staying inside the file", "a damaged archive's arrays must equal an undamaged member or what Python extracts"], run=r_c13)

def r_c10(ctx):
    import modelmon
    modelmon.run_c10(ctx, q(ctx, 1500, 30000), q(ctx, 1200, 20000))
prop("C10", "exploration", "a case is a random network with hostile parameter bits saved under a printf-style name and loaded, or a model file of numpy; distinct by architecture and name form",
     ["numpy is right about the format", "file names of up to 128 characters"], run=r_c10)
def r_c11(ctx):
    import modelmon
    modelmon.run_c11(ctx, q(ctx, 5000, 60000), [("asan", 1), ("native", 1)])
prop("C11", "fault_enumeration", "a case is a model file with a wrong element, dimension, size, name array, damaged bytes or a missing end, loaded three times; distinct by content",
     ["what a file describes is decided by Python's zipfile and a strict header reader; after random damage the undamaged network is accepted as well"], run=r_c11)

def j_c22(ctx):
    m = q(ctx, 1, 20)
    return [J("h_kernel", "params", v, k * m) for v, k in [("native", 5000), ("avx", 2000), ("sse", 2500), ("blas", 2000), ("asan", 1500), ("asan_avx2", 800), ("asan_sse", 800)]]
prop("C22", "exploration", "a case is a random network whose parameters lie in guarded memory, read and updated with vectors at random offsets; distinct by architecture and offsets",
     ["sums are accepted within one rounding"], jobs=j_c22)
def j_c24(ctx):
    m = q(ctx, 1, 20)
    return [J("h_kernel", "kernel", v, k * m) for v, k in [("native", 40000), ("avx2fma", 15000), ("avx2", 10000), ("avx", 15000), ("sse", 20000), ("blas", 20000), ("asan", 12000), ("asan_avx2", 6000), ("asan_sse", 6000), ("asan_blas", 4000)]]
prop("C24", "exploration", "a case is a kernel with random sizes, values and operand offsets (where it accepts any) in guarded memory; distinct by kernel, sizes and offsets",
     [FP, "operands the source documents as aligned are given aligned; the results of matrix_vector_multiply and vector_vector_outer are zeroed before, as documented"], jobs=j_c24)

def j_c19(ctx):
    m = q(ctx, 1, 20)
    return [J("h_cb", "early", v, k * m) for v, k in [("native", 8000), ("sse", 3000), ("asan", 3000)]]
prop("C19", "exploration", "a case is a history of results given to an early stopping of random configuration until it stops; distinct by configuration, style of history and the epoch it stopped",
     ["before the first finite score there are at most `patience` epochs (whether these count is open)", "scores stay below 1e38"], jobs=j_c19)
def j_c20(ctx):
    m = q(ctx, 1, 20)
    return [J("h_cb", "checkpoint", v, k * m) for v, k in [("native", 2500), ("sse", 600), ("asan", 700)]]
prop("C20", "exploration", "a case is a history of results and changing networks given to a checkpoint, whose file is loaded and compared after every epoch; distinct by configuration, name and style of history",
     ["before the first finite score the file is free", "file names of at most 128 characters"], jobs=j_c20)
def j_c21(ctx):
    m = q(ctx, 1, 20)
    return [J("h_cb", "log", v, k * m) for v, k in [("native", 4000), ("sse", 800), ("asan", 1000)]]
prop("C21", "exploration", "a case is one to three runs logging to a file that holds something already (or not); every byte is compared; distinct by kind of prior file, configuration and number of epochs",
     ["when a start number is configured and there is a log already, either number may be continued", "values are printed to six digits"], jobs=j_c21)
def j_c25(ctx):
    m = q(ctx, 1, 20)
    return [J("h_cb", "progress", v, k * m) for v, k in [("native", 4000), ("asan", 2000)]] + [J("h_train", "reports", "native", 1500 * m)]
prop("C25", "exploration", "a case is a run of progress reports of a random total, step, label and terminal width, read back from a pseudo terminal, or an epoch of training whose reports are watched; distinct by these",
     ["a terminal too narrow for a bar shows nothing"], jobs=j_c25)

def j_c18(ctx):
    m = q(ctx, 1, 20)
    return [J("h_init", "init", v, k * m) for v, k in [("native", 3000), ("sse", 1000), ("asan", 1000)]] + [J("h_init", "seed", "native", 300 * m)]
prop("C18", "exploration", "a case is a random network (parameters in guarded memory) initialised with given or no initializer names, from the real rand() or one that returns its extremes; distinct by architecture and distributions",
     ["distributions are judged by moments, correlation of neighbours and Kolmogorov-Smirnov distance, per layer and over all layers, at error levels around 1e-9", "a KS test cannot see deviations much below 1/sqrt(number of weights)"], jobs=j_c18)

def r_c23(ctx):
    import dynmon
    dynmon.run_c23(ctx, q(ctx, 500, 8000))
prop("C23", "exploration", "a case is a process that creates, saves, loads, trains and frees up to 60 networks with activations from eight shared libraries (and names that cannot be resolved) and ends with exit(), watched to its last destructor; distinct by the networks",
     [FP, "custom activations are linear functions of known coefficients, so that a wrong one shows in predictions and gradients", "networks with an activation without a derivative are not trained"], run=r_c23)

WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=memalign,--wrap=strdup"]
def j_c14(ctx):
    m = q(ctx, 1, 20)
    return [J("h_save", "save", v, k * m, timeout=800) for v, k in [("native", 300), ("asan", 60)]] + \
           [J("h_oom", "saving", v, k * m, ldflags=WRAP if v == "asan" else [], timeout=800) for v, k in [("native", 60), ("asan", 12)]]
prop("C14", "exploration", "a case is one save of a random network over an older model (or over nothing, another file, an empty or half a file) with the directory looked at at each of its system calls, and then one run for each call that fails, falls short or is the last one; or of each allocation that fails; distinct by network, call, fault and what was there",
     ["a crash is that of the process: what the kernel was told stays (no power failures)", "a close() that fails has closed the file all the same; calls that only look (stat, lseek, fcntl) do not fail", "for want of memory an assertion may end the process; the file is looked at then as well"], jobs=j_c14)

def j_c15(ctx):
    m = q(ctx, 1, 15)
    return [J("h_omp", "team", v, k * m, timeout=600) for v, k in [("tsan", 400), ("shim", 1200), ("native", 1200), ("blas", 400)]] + \
           [J("h_omp", "app", v, k * m, timeout=600) for v, k in [("tsan", 240), ("shim", 600), ("native", 600), ("blas", 200)]]
prop("C15", "exploration", "a case is either the regions (batch prediction, evaluation, training) of a random network with a team of 2 to 64 threads against one thread, or 2 to 8 application threads that share a network or train their own against each alone; distinct by network, sizes and observed order of events in the runtime",
     [FP, "gompshim.c stands in for libgomp under ThreadSanitizer (and for delays); the real one runs too, without the race detector", "training is compared bit for bit (to 2e-6) where all sums are exact, and within the rounding that an optimizer may magnify elsewhere",
      "with shuffling, values are only compared where the order cannot matter"], jobs=j_c15)

def j_c17(ctx):
    m = q(ctx, 1, 20)
    return [J("h_oom", mode, v, n * m, ldflags=WRAP if v == "asan" else []) for v, k, l in [("native", 1500, 20000), ("sse", 300, 5000), ("asan", 300, 4000)] for mode, n in [("oom", k), ("sizes", l)]]
prop("C17", "exploration", "a case is a network, array or archive created or loaded once for each allocation on the way that fails, alone or with all later ones (or with all big ones), or a tuple of impossible or huge sizes; distinct by object and failing allocation",
     ["a custom activation may be kept until exit, and be linear (with a message) for want of memory", "optimizers and callbacks assert that there is memory, which they do not promise to handle"], jobs=j_c17)

def j_c16(ctx):
    m = q(ctx, 1, 25)
    return [J("h_api", "api", v, k * m, timeout=600) for v, k in [("native", 2500), ("sse", 600), ("avx", 400), ("blas", 300), ("asan", 250), ("asan_sse", 120), ("asan_avx2", 120), ("asan_blas", 80), ("msan", 250), ("msan_sse", 120)]] + \
           [J("h_api", "bigfit", "native", 6 * m, 2), J("h_api", "bigtrain", "native", 1, 1)]
prop("C16", "exploration", "a case is a random valid sequence of up to 120 calls on networks, optimizers, callbacks, arrays and archives, run three times or more with different garbage in fresh memory; distinct by all that it computed",
     ["a custom activation may be kept until exit", "with several threads or CBLAS results are not compared to the bit"], jobs=j_c16)

def j_c26(ctx):
    m = q(ctx, 1, 20)
    return [J("h_ext", "ext", v, k * m) for v, k in [("native", 1500), ("avx", 300), ("sse", 400), ("blas", 500), ("asan", 300)]]
prop("C26", "exploration", "a case is a network trained by an optimizer of our own, with metrics, callbacks and often a loss of our own, whose calls are all checked; distinct by architecture, sizes, batch size, metrics, callbacks and epochs",
     ["the loss and metrics of a user are thread-safe, as the library calls them from its threads", "the gradient of a sample is that of neuralnet_backpropagation (see C03)"], jobs=j_c26)
def r_c27(ctx):
    import exmon
    m = q(ctx, 1, 20)
    exmon.run_examples(ctx, 36 * m, ["native", "asan"])
    ctx.jobs([J("h_ext", "pipeline", v, k * m) for v, k in [("native", 2500), ("avx", 400), ("sse", 500), ("blas", 500), ("asan", 400)]])
prop("C27", "exploration", "a case is one of the example programs run on random data, or a training run as in the examples (data from npy files, all callbacks, checkpoint reloaded, log read, training resumed from a saved network); distinct by architecture, data, optimizer, loss, callbacks and length",
     ["runs that diverge to inf or NaN are not judged", "bit-exact comparisons with one thread and without CBLAS only", "only SGD without momentum can be resumed from parameters alone", "of the example programs: how they initialise and shuffle is not recalculated, only what they report at the end"], run=r_c27)
def r_c28(ctx):
    import buildmon
    buildmon.run_c28(ctx, q(ctx, 150, 1500), q(ctx, 1, 20))
prop("C28", "exploration", "a case is a network saved by each build and read, compared and predicted by every other build, or a case of another property watched on a library that configure, make and make install gave (or built with other defines or another compiler); distinct by build and network",
     [FP, "builds: instruction sets, CBLAS (also with little work memory), NDEBUG, VERBOSE, no OpenMP, clang, static and shared library, prediction only (of the sources prediction needs)"], run=r_c28)
def j_c29(ctx):
    m = q(ctx, 1, 25)
    return [J("h_io", "io", v, k * m, timeout=800) for v, k in [("native", 400), ("asan", 80)]]
prop("C29", "exploration", "a case is one save or load of random arrays or a network, and then two runs for each of its system calls in which this call fails, falls short, or is the first of those that fail; distinct by operation, content, call and fault",
     ["a close() that fails has closed the file all the same; calls that only look (stat, lseek, fcntl) do not fail"], jobs=j_c29)
