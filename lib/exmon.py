"""C27: the example programs of the repository, run on generated data; what they report is judged with numpy from the
files they read and left behind."""
import os, re, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import core
EPS = 1e-7
def sig(z): return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
ACT = {"relu": lambda z: np.maximum(z, 0), "sigmoid": sig, "tanh": np.tanh, "linear": lambda z: z,
       "softsign": lambda z: z / (1 + np.abs(z)), "softplus": lambda z: np.logaddexp(0, z)}

def load_net(p):
    z = np.load(p, allow_pickle=False)
    a = [z[k] for k in z.files]
    names = [x.decode() for x in [q for q in a if q.dtype.kind == "S"][0]]
    f = [q.astype(np.float64) for q in a if q.dtype.kind == "f"]
    return [(f[2 * i], f[2 * i + 1], names[i]) for i in range(len(names))]
def forward(net, X):
    """the last weighted sums, and the error a float32 calculation may have in them"""
    a = X.astype(np.float64); e = np.zeros_like(a)
    for w, b, n in net:
        z = a @ w + b
        e = e @ np.abs(w) + 4e-7 * (np.abs(a) @ np.abs(w) + np.abs(b)) * (2 + 0.02 * len(w))
        a = ACT[n](z)
    return z, e, net[-1][2]
def bounds(metric, net, X, Y):
    """lowest and highest mean that float32 rounding can give"""
    z, e, act = forward(net, X)
    Y = Y.astype(np.float64)
    lo, hi = [ACT[act](z + s * (e + 1e-7)) for s in (-1, 1)]
    lo, hi = np.minimum(lo, hi) - 2e-7, np.maximum(lo, hi) + 2e-7
    if metric == "binary_accuracy":
        r = lambda p: np.floor(np.clip(p, 0, 1) + 0.5)
        a, b = r(lo) == r(Y), r(hi) == r(Y)
        return (a & b).mean(), (a | b).mean()
    if metric == "mean_squared_error": f = lambda p: (p - Y) ** 2
    elif metric == "mean_absolute_error": f = lambda p: np.abs(p - Y)
    elif metric == "binary_crossentropy":
        def f(p):
            p = np.clip(p, EPS, 1 - EPS)
            return -(Y * np.log(p) + (1 - Y) * np.log(1 - p))
    a, b = f(lo), f(hi)
    l, h = np.minimum(a, b), np.maximum(a, b)
    if metric in ("mean_squared_error", "mean_absolute_error"): l = np.where((lo <= Y) & (Y <= hi), 0, l)
    return l.mean(), h.mean()
def fits(v, bd, digits_abs=0.0, rel=2e-5): return bd[0] * (1 - rel) - digits_abs - 1e-9 <= v <= bd[1] * (1 + rel) + digits_abs + 1e-9

PROGS = ["example_01", "example_02", "example_02b", "general-trainer"]
NPY = ["how_to_save", "how_to_save_npz", "how_to_load", "how_to_load_npz"]
def build(ctx, variant):
    objs = ctx.lib(variant)
    out = {}
    def one(p):
        src = os.path.join(core.REPO, "npy_array/example" if p in NPY else "examples", p + ".c")
        if not os.path.exists(src): return None
        exe = os.path.join(ctx.tmp, "%s-%s" % (p, variant))
        r = ctx.sh(["gcc", "-std=gnu11"] + [f for f in ctx.cflags(variant) if f != "-std=c99"] + [src] + list(objs) + ["-o", exe] + core.VARIANTS[variant]["libs"] + ["-lzip", "-lm", "-ldl", "-lpthread"])
        if r.returncode: raise core.HarnessError("cannot build %s:\n%s" % (p, r.stdout[-2000:]))
        return exe
    with ThreadPoolExecutor(core.NCPU) as ex:
        for p, e in zip(PROGS + NPY, ex.map(one, PROGS + NPY)):
            if e: out[p] = e
    return out

def run_examples(ctx, n, variants):
    ex = {v: build(ctx, v) for v in variants}
    ctx.log("examples built")
    def bad(v, c, prog, text): ctx.viol("example:" + prog, "[%s] case %d: %s: %s" % (v, c, prog, text), dict(case=c, seed=ctx.seed, variant=v, example=prog))
    def run(v, c, prog, d, args=(), want=0):
        env = dict(os.environ, LC_ALL="C", OMP_WAIT_POLICY="passive", OMP_NUM_THREADS=str(1 + c % 3), OPENBLAS_NUM_THREADS="1", **core.SAN_ENV)
        p = os.path.join(d, "err")
        with open(p, "w") as ef:
            try: r = subprocess.run([ex[v][prog]] + list(args), cwd=d, env=env, stdout=subprocess.PIPE, stderr=ef, stdin=subprocess.DEVNULL, timeout=150)
            except subprocess.TimeoutExpired: bad(v, c, prog, "no end after 150 s"); return None
        out = r.stdout.decode("utf-8", "replace")
        if r.returncode != want:
            e = open(p, errors="replace").read()
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|[^\n]*Assertion[^\n]*)", e)
            bad(v, c, prog, "ended with %d: %s" % (r.returncode, m.group(1) if m else e[-300:])); return None
        ctx.ev(); ctx.stat("example_programs_run_%s" % prog.replace("-", "_"))
        return out
    def mushrooms(v, c, d, r):
        nf, nt, ns = r.choice([1, 2, 7, 8, 30, 95, 128]), r.choice([1, 5, 64, 300, 1500]), r.choice([1, 3, 50, 200])
        g = np.random.default_rng(r.getrandbits(60))
        def data(k):
            X = (g.random((k, nf)) < 0.5).astype(np.float32) if r.random() < 0.7 else g.normal(size=(k, nf)).astype(np.float32)
            return X, ((X[:, 0] > 0.5) ^ (g.random(k) < 0.1)).astype(np.float32).reshape(-1, 1)
        (X, Y), (TX, TY) = data(nt), data(ns)
        (np.savez if r.random() < 0.7 else np.savez_compressed)(d + "/mushroom_train.npz", X, Y, TX, TY)
        ctx.cover("ex%d.%d.%d" % (nf, nt, ns))
        o = run(v, c, "example_01", d)
        if o is not None:
            m = re.search(r"# features: +(\d+) *\n *#  samples: +(\d+) *\nAccuracy: *(\S+) *\( (\d+) / (\d+) \)", o)
            if not m or (int(m[1]), int(m[2]), int(m[5])) != (nf, nt, ns) or abs(float(m[3]) - int(m[4]) / ns) > 6e-6 or not 0 <= int(m[4]) <= ns:
                bad(v, c, "example_01", "says %r of %d features, %d samples and %d to test" % (o[-200:], nf, nt, ns))
        o = run(v, c, "example_02", d)
        if o is None: return
        try: net = load_net(d + "/mushroom-neuralnet.npz")
        except Exception as e: bad(v, c, "example_02", "numpy cannot read the network it saved: %r" % e); return
        if [q[2] for q in net] != ["relu", "relu", "sigmoid"] or [q[0].shape for q in net] != [(nf, 64), (64, 32), (32, 1)]: bad(v, c, "example_02", "saved another network"); return
        got = re.findall(r"^(Train|Test) +(\w+) *: (\S+)$", o, re.M)
        names = ["binary_crossentropy", "mean_absolute_error", "binary_accuracy"]
        if [(a, b) for a, b, _ in got] != [(a, b) for a in ("Train", "Test") for b in names]: bad(v, c, "example_02", "prints %r" % o[-300:]); return
        for a, b, x in got:
            bd = bounds(b, net, *((X, Y) if a == "Train" else (TX, TY))); ctx.stat("example_results_recalculated")
            if not fits(float(x), bd, 6e-6): bad(v, c, "example_02", "reports %s %s %s (%d features, %d and %d samples), but the network it saved has between %.6g and %.6g" % (a, b, x, nf, nt, ns, *bd))
        o = run(v, c, "example_02b", d)
        if o is None: return
        for a in ("Train", "Test"):
            for k, b in (("loss", "binary_crossentropy"), ("accuracy", "binary_accuracy")):
                m = re.search(r"%s %s *: (\S+)" % (a, k), o)
                bd = bounds(b, net, *((X, Y) if a == "Train" else (TX, TY)))
                if not m or not fits(float(m[1]), bd, 6e-6, 1e-4): bad(v, c, "example_02b", "reports %s %s %s, but the network has between %.6g and %.6g" % (a, k, m and m[1], *bd))
                ctx.stat("example_results_recalculated")
    def trainer(v, c, d, r):
        g = np.random.default_rng(r.getrandbits(60))
        loss, act = r.choice([("binary_crossentropy", "sigmoid"), ("mean_squared_error", "linear"), ("mean_squared_error", "sigmoid"), ("mean_absolute_error", "tanh")])
        sz = [r.choice([1, 3, 8, 17, 33]) for _ in range(r.randint(1, 3))] + [r.choice([1, 1, 2, 5, 9])]
        if len(sz) < 2: sz = [4] + sz
        acts = [r.choice(["relu", "tanh", "softsign", "softplus", "sigmoid"]) for _ in sz[2:]] + [act]
        arrs = [x for i in range(len(sz) - 1) for x in ((g.normal(size=(sz[i], sz[i + 1])) / np.sqrt(sz[i])).astype(np.float32), np.zeros(sz[i + 1], np.float32))]
        np.savez(d + "/net.npz", *arrs, np.array([a.encode() for a in acts]))
        before[d] = open(d + "/net.npz", "rb").read()
        nt, ns = r.choice([1, 7, 40, 300]), r.choice([1, 6, 50])
        T = g.normal(size=(sz[0], sz[-1]))
        def data(k):
            X = g.normal(size=(k, sz[0])).astype(np.float32); Y = X @ T / np.sqrt(sz[0]) + 0.3 * g.normal(size=(k, sz[-1]))
            return X, ((Y > 0) if loss[0] == "b" else np.tanh(Y) if act == "tanh" else sig(Y)).astype(np.float32)
        X, Y = data(nt); VX, VY = data(ns)
        np.savez(d + "/t.npz", X, Y); np.savez(d + "/v.npz", VX, VY)
        opt, lr, bs = r.choice(["SGD", "RMSprop", "adagrad", "adam", "adamw"]), r.choice(["0.01", "0.003", "0.0005"]), r.choice([1, 4, 32, 1000])
        other = r.choice(["mean_absolute_error", "mean_squared_error", "binary_accuracy"])
        ctx.cover("gt%s%s%s%d" % (opt, loss, sz, bs))
        o = run(v, c, "general-trainer", d, ["-t", "t.npz", "-v", "v.npz", "-n", "net.npz", "-l", loss, "--metrics", other, "-o", opt, "-a", lr, "-b", str(bs), "-q", "log"])
        if o is None: return
        pat = r"^\[\d\d:\d\d:\d\d\] Epoch +(\d+) %s: (\S+) %s: (\S+) val_%s: (\S+) val_%s: (\S+) *$" % (loss, other, loss, other)
        L = [re.match(pat, l) for l in open(d + "/log").read().splitlines()]
        if len(L) != 10 or not all(L) or [int(m[1]) for m in L] != list(range(int(L[0][1]), int(L[0][1]) + 10)): bad(v, c, "general-trainer", "10 epochs, the log is %r" % open(d + "/log").read()[-500:]); return
        if [m.groups() for m in L] != [m.groups() for m in re.finditer(pat, o, re.M)]: bad(v, c, "general-trainer", "what is printed is not what is logged: %r" % o[-300:])
        val = [float(m[4]) for m in L]
        if not all(np.isfinite(val)): return
        b = min(range(10), key=lambda i: val[i])
        try: net = load_net(d + "/checkpoint.npz")
        except Exception as e: bad(v, c, "general-trainer", "numpy cannot read the checkpoint: %r" % e); return
        if [q[0].shape for q in net] != list(zip(sz[:-1], sz[1:])) or [q[2] for q in net] != acts: bad(v, c, "general-trainer", "the checkpoint is another network"); return
        for k, name in ((2, loss), (3, other), (4, loss), (5, other)):
            bd = bounds(name, net, *((VX, VY) if k > 3 else (X, Y))); ctx.stat("example_results_recalculated")
            if not fits(float(L[b][k]), bd, 0, 3e-5): bad(v, c, "general-trainer", "%s %s batch %d %s sizes %s: the best epoch is %s with %s %s, but the checkpoint has between %.7g and %.7g" % (opt, lr, bs, loss, sz, L[b][1], name, L[b][k], *bd))
        if open(d + "/net.npz", "rb").read() != before[d]: bad(v, c, "general-trainer", "the file of the network changed")
    before = {}
    def arrays(v, c, d, r):
        if run(v, c, "how_to_save", d) is not None:
            for f in ("my_4_by_3_array.npy", "my_4_by_3_array_shortcut.npy"):
                a = np.load(os.path.join(d, f))
                if a.dtype.str != "<f4" or a.tolist() != np.arange(12.).reshape(4, 3).tolist(): bad(v, c, "how_to_save", "%s is %r" % (f, a))
                o = run(v, c, "how_to_load", d, [f])
                if o is not None and [[float(x) for x in l.split()] for l in o.strip().splitlines()[-4:]] != a.tolist(): bad(v, c, "how_to_load", "prints %r" % o[-200:])
        if run(v, c, "how_to_save_npz", d) is not None:
            z = np.load(d + "/iarray_and_darray.npz")
            if [k for k in z.files] != ["arr_0", "arr_1"] or [z[k].dtype.str for k in z.files] != ["<i4", "<f8"] or any(z[k].tolist() != np.arange(12).reshape(4, 3).tolist() for k in z.files): bad(v, c, "how_to_save_npz", "the archive has %r" % [(k, z[k]) for k in z.files])
            o = run(v, c, "how_to_load_npz", d, ["iarray_and_darray.npz"])
            if o is not None and re.findall(r"File: (\S+)|\((\d) bytes", o) != [("arr_0.npy", ""), ("", "4"), ("arr_1.npy", ""), ("", "8")]: bad(v, c, "how_to_load_npz", "prints %r" % o)
        run(v, c, "how_to_load", d, ["missing.npy"], want=1)
    def case(vc):
        v, c = vc
        r = random.Random("ex%d-%d" % (ctx.seed, c))
        d = os.path.join(ctx.tmp, "ex-%s-%d" % (v, c)); os.makedirs(d)
        f = [mushrooms, trainer, trainer, mushrooms, trainer][c % 5] if c else arrays
        need = {mushrooms: ["example_01", "example_02", "example_02b"], trainer: ["general-trainer"], arrays: NPY}[f]
        try:
            if all(p in ex[v] for p in need): f(v, c, d, r)
        except (OSError, ValueError, KeyError, IndexError) as e: bad(v, c, need[0], "what it left cannot be read: %r" % e)
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(core.NCPU) as tp: list(tp.map(case, [(v, c) for v in variants for c in range(n)]))
