"""C28: the library built in all the ways it can be built; what one build writes the others read, and the monitors of
the other properties watch the libraries that ./configure, make and make install give."""
import os
import core
from concurrent.futures import ThreadPoolExecutor
FULL = ["native", "avx2fma", "avx2", "avx", "sse", "blas", "blas_small", "ndebug", "verbose", "noomp", "clang", "made_static", "made_shared", "made_blas", "O0"]
READ = FULL + ["ponly", "asan"]
def run_c28(ctx, n, m):
    d = os.path.join(ctx.tmp, "shared"); os.makedirs(d, exist_ok=True)
    ctx.exe("h_build", "native")            # if this fails, it is not a matter of builds
    def builds(v):
        if not core.variant_ok(v): return False
        try: ctx.exe("h_build", v)
        except core.HarnessError as e:
            ctx.viol("build:" + v, "the library cannot be built, or not linked, this way: " + str(e)[-700:]); return False
        return True
    with ThreadPoolExecutor(4) as ex: good = {v for v, ok in zip(READ, ex.map(builds, READ)) if ok}
    full = [v for v in FULL if v in good]
    def J(h, mode, v, n, shards=2, **kw): return dict(harness=h, mode=mode, variant=v, n=n, shards=shards, **kw)
    ctx.jobs([J("h_build", "write", v, n, args=[d, v]) for v in full])
    ctx.jobs([J("h_build", "read", v, n, 4, args=[d, v, ",".join(full)]) for v in READ if v in good])
    js = []
    for v in ("made_static", "made_shared", "made_blas", "ndebug", "verbose", "clang", "noomp", "blas_small", "O0"):
        if v not in good: continue
        js += [J("h_predict", "predict", v, 150 * m), J("h_predict", "batch", v, 150 * m), J("h_grad", "grad", v, 200 * m), J("h_train", "rule", v, 80 * m),
               J("h_train", "results", v, 80 * m), J("h_train", "evaluate", v, 60 * m), J("h_train", "visits", v, 80 * m), J("h_ext", "pipeline", v, 120 * m), J("h_loss", "loss", v, 600 * m), J("h_act", "act", v, 600 * m), J("h_kernel", "kernel", v, 1500 * m)]
    js += [J("h_predict", mode, "ponly", 600 * m) for mode in ("predict", "batch") if "ponly" in good]
    ctx.jobs(js)
