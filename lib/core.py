"""What all the checks share: building the code under test in its variants, running the harnesses in
parallel, collecting what they observed, known findings, replays and evidence."""
import os, sys, json, time, glob, shutil, signal, subprocess, tempfile, threading, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))

class HarnessError(Exception):
    pass

def cpuflags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()
CPU = cpuflags()

def isa_flags(isa):
    """Compiler flags as src/configure chooses them, for the CPU or for a lesser one; None: cannot run here."""
    if isa == "native":
        f = []
        if "avx512f" in CPU: f.append("-mavx512f")
        elif "avx2" in CPU: f.append("-mavx2")
        elif "avx" in CPU: f.append("-mavx")
        if "fma" in CPU: f.append("-mfma")
        return f
    if isa == "avx2fma": return ["-mavx2", "-mfma"] if {"avx2", "fma"} <= CPU else None
    if isa == "avx2": return ["-mavx2"] if "avx2" in CPU else None
    if isa == "avx": return ["-mavx"] if "avx" in CPU else None
    if isa == "sse": return []
    raise KeyError(isa)

BASE = ["-std=c99", "-fopenmp", "-w", "-g"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
MSAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-D_GNU_SOURCE", "-DMSAN=1", "-I" + VERIF + "/harness/msan_inc"]
MSAN_LD = ["-Wl," + ",".join("--wrap=" + f for f in ("zip_fread", "zip_get_name", "zip_open", "zip_close", "zip_file_add", "zip_fopen_index", "zip_source_buffer_create"))]
VARIANTS = {
    "native": dict(isa="native", cflags=["-O3"], libs=[]),
    "avx2fma": dict(isa="avx2fma", cflags=["-O3"], libs=[]),
    "avx2":   dict(isa="avx2", cflags=["-O3"], libs=[]),
    "avx":    dict(isa="avx", cflags=["-O3"], libs=[]),
    "sse":    dict(isa="sse", cflags=["-O3"], libs=[]),
    "blas":   dict(isa="native", cflags=["-O3", "-DUSE_CBLAS"], libs=["-lopenblas"]),
    "asan":   dict(isa="native", cflags=SAN, libs=[]),
    "asan_avx2": dict(isa="avx2fma", cflags=SAN, libs=[]),
    "asan_sse": dict(isa="sse", cflags=SAN, libs=[]),
    "asan_blas": dict(isa="native", cflags=SAN + ["-DUSE_CBLAS"], libs=["-lopenblas"]),
    "tsan":   dict(isa="native", cflags=["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"], libs=[], shim=True),
    "shim":   dict(isa="native", cflags=["-O2"], libs=[], shim=True),
    # MemorySanitizer (clang, without OpenMP: the pragmas are ignored and msan_inc/omp.h stands in)
    "msan":   dict(isa="native", cc="clang", cflags=MSAN, libs=[]),
    "msan_sse": dict(isa="sse", cc="clang", cflags=MSAN, libs=[]),
}
def made(conf=(), make=(), static=True, **kw):
    """configure, make, make install of both libraries, and a program that only sees what was installed"""
    return dict(isa="native", cflags=["-O2"] + (["-DUSE_CBLAS"] if kw.get("blas") else []), libs=["-lopenblas"] if kw.get("blas") else [], made=dict(conf=list(conf), make=list(make), static=static), **{k: v for k, v in kw.items() if k != "blas"})
VARIANTS.update({
    "ndebug": dict(isa="native", cflags=["-O3", "-DNDEBUG"], libs=[]),
    "verbose": dict(isa="native", cflags=["-O3", "-DVERBOSE=1"], libs=[]),
    "O0": dict(isa="native", cflags=["-O0"], libs=[]),
    "blas_small": dict(isa="native", cflags=["-O3", "-DUSE_CBLAS", "-DN_STACK_ALLOC_FLOATS=256"], libs=["-lopenblas"]),
    "noomp": dict(isa="native", cflags=["-O3", "-fno-openmp", "-I" + VERIF + "/harness/msan_inc"], libs=[]),
    "clang": dict(isa="native", cc="clang", cflags=["-O3", "-I" + VERIF + "/harness/msan_inc"], libs=[]),
    "ponly":  dict(isa="native", cflags=["-O3", "-DPREDICTION_ONLY"], libs=[], partial=True),
    "made_static": made(),
    "made_shared": made(["--enable-shared", "--disable-debug"], static=False),
    "made_blas": made(make=["DEFINE=-DUSE_CBLAS", "BLAS_LDFLAGS=-lopenblas"], blas=True),
})
def have_blas():
    for p in ("/usr/include/cblas.h", "/usr/include/x86_64-linux-gnu/cblas.h", "/usr/include/openblas/cblas.h"):
        if os.path.exists(p): return True
    return False
def variant_ok(v):
    if isa_flags(VARIANTS[v]["isa"]) is None: return False
    if "blas" in v and not have_blas(): return False
    return True

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:max_malloc_fill_size=1048576:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "MSAN_OPTIONS": "halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
}

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        self.lock = threading.Lock()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.viols = []           # (key, detail, replay dict)
        self.assumptions = []
        self.notes = []
        self._exe = {}
        self._exe_keys = {}
        self._exe_lock = threading.Lock()
        self._libs = {}
    def log(self, *a):
        print("[%6.1f] " % (time.time() - self.t0) + " ".join(str(x) for x in a), file=sys.stderr, flush=True)
    @property
    def thorough(self): return self.tier == "thorough"
    # ---- observations from python monitors
    def ev(self, n=1):
        with self.lock: self.evals += n
    def cover(self, h):
        with self.lock: self.distinct.add(h)
    def stat(self, name, n=1):
        with self.lock: self.stats[name] = self.stats.get(name, 0) + n
    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit: self.samples.append(s)
    def viol(self, key, detail, replay=None):
        with self.lock:
            if len(self.viols) < 200:
                self.viols.append((key, detail, replay or {}))
        if len(self.viols) <= 6: self.log("violation", key, detail[:600])

    # ---- building
    def sh(self, cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    def cflags(self, variant):
        v = VARIANTS[variant]
        inc = ["-I%s/src" % REPO, "-I%s/npy_array" % REPO]
        if "made" in v: inc = ["-I" + os.path.join(self.tmp, "lib-%s-%d" % (variant, abs(hash((variant, ()))) % 100000), "stage/p/include")]
        return [f for f in BASE if not ( "cc" in v and f == "-fopenmp" )] + v["cflags"] + isa_flags(v["isa"]) + inc
    def lib(self, variant, extra=()):
        """Objects of all sources of the repository, built like its Makefiles do."""
        key = (variant, tuple(extra))
        with self._exe_lock:
            if key in self._libs: return self._libs[key]
        d = os.path.join(self.tmp, "lib-%s-%d" % (variant, abs(hash(key)) % 100000))
        os.makedirs(d, exist_ok=True)
        if "made" in VARIANTS[variant]:
            r = self.make_lib(variant, d, VARIANTS[variant]["made"])
            with self._exe_lock: self._libs[key] = r
            return r
        srcs = sorted(glob.glob(REPO + "/npy_array/*.c") + glob.glob(REPO + "/src/*.c"))
        objs, procs = [], []
        for s in srcs:
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            procs.append((s, [VARIANTS[variant].get("cc", "gcc")] + self.cflags(variant) + list(extra) + ["-c", s, "-o", o]))
        with ThreadPoolExecutor(NCPU) as ex:
            for (s, c), r in zip(procs, ex.map(lambda p: self.sh(p[1]), procs)):
                if r.returncode and VARIANTS[variant].get("partial"):      # sources that have no place in this build
                    objs.remove(c[-1]); self.notes.append("%s is not part of the build %s" % (os.path.basename(s), variant)); continue
                if r.returncode:
                    raise HarnessError("cannot compile %s for %s:\n%s" % (s, variant, r.stdout[-3000:]))
        if VARIANTS[variant].get("partial"):       # only what a program needs
            r = self.sh(["ar", "rcs", d + "/lib.a"] + objs)
            if r.returncode: raise HarnessError("ar: " + r.stdout)
            objs = [d + "/lib.a"]
        with self._exe_lock:
            self._libs[key] = objs
        return objs
    def make_lib(self, variant, d, how):
        """As INSTALL.md says: ./configure, make and make install, in a copy of the sources."""
        env = {k: v for k, v in os.environ.items() if k in ("HOME", "TMPDIR")}
        os.makedirs(d + "/bin")
        for f in ("sudo", "ldconfig"): os.symlink("/bin/true", d + "/bin/" + f)      # nothing outside the copy is touched
        env.update(PATH=d + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C")
        src, stage = os.path.join(d, "src-copy"), os.path.join(d, "stage")
        for part in ("npy_array", "src"):
            to = os.path.join(src, part); os.makedirs(to)
            for f in sorted(os.listdir(os.path.join(REPO, part))):
                p = os.path.join(REPO, part, f)
                if os.path.isfile(p) and not f.endswith((".o", ".d", ".a", ".so", ".pc")) and f != "Makefile": shutil.copy(p, to)
            conf = how["conf"] + (["--disable-shared"] if how["static"] and part == "npy_array" else [])
            for c in (["bash", "./configure", "--prefix=/p"] + conf, ["make", "-j4"] + how["make"], ["make", "install", "DESTDIR=" + stage] + how["make"]):
                r = self.sh(c, cwd=to, env=env)
                if r.returncode: raise HarnessError("%s in %s for %s:\n%s" % (" ".join(c), part, variant, r.stdout[-3000:]))
        self.stat("builds_made_and_installed")
        lib = stage + "/p/lib"
        return ["-L" + lib, "-Wl,-rpath," + lib, "-lsimd_neuralnet", "-lnpy_array"]
    def exe(self, harness, variant, cflags=(), ldflags=(), libextra=(), name=None):
        key = (harness, variant, tuple(cflags), tuple(ldflags), tuple(libextra))
        with self._exe_lock:
            l = self._exe_keys.setdefault(key, threading.Lock())
            number = list(self._exe_keys).index(key)
        with l:     # several jobs may want the same one at the same time
            if key in self._exe: return self._exe[key]
            return self._build_exe(key, number, harness, variant, cflags, ldflags, libextra)
    def _build_exe(self, key, number, harness, variant, cflags, ldflags, libextra):
        objs = self.lib(variant, libextra)
        v = VARIANTS[variant]
        out = os.path.join(self.tmp, "%s-%s-%d" % (harness, variant, number))
        shim = []
        hf = [f for f in self.cflags(variant) if f != "-std=c99"]
        if v.get("shim"):
            shim = [VERIF + "/harness/gompshim.c"]
        cmd = [v.get("cc", "gcc"), "-std=gnu11"] + hf + list(cflags) + ["-I" + VERIF + "/harness", VERIF + "/harness/%s.c" % harness] + objs
        if v.get("shim"):
            so = out + ".shim.o"
            r = self.sh(["gcc", "-std=gnu11"] + [f for f in hf if f != "-fopenmp"] + ["-c"] + shim + ["-o", so])
            if r.returncode: raise HarnessError("cannot compile shim:\n" + r.stdout)
            # compile with -fopenmp, link without: the shim stands in for libgomp
            ho = out + ".o"
            r = self.sh(["gcc", "-std=gnu11"] + hf + list(cflags) + ["-I" + VERIF + "/harness", "-c", VERIF + "/harness/%s.c" % harness, "-o", ho])
            if r.returncode: raise HarnessError("cannot compile %s for %s:\n%s" % (harness, variant, r.stdout[-3000:]))
            cmd = ["gcc"] + [f for f in hf if f != "-fopenmp"] + [ho, so] + objs
        cmd += ["-o", out] + (MSAN_LD if "msan" in variant else []) + list(ldflags) + v["libs"] + ["-lzip", "-lm", "-ldl", "-lpthread", "-rdynamic"]
        r = self.sh(cmd)
        if r.returncode:
            raise HarnessError("cannot build %s for %s:\n%s" % (harness, variant, r.stdout[-3000:]))
        with self._exe_lock:
            self._exe[key] = out
        return out

    # ---- running harnesses that speak the protocol of h.h
    def jobs(self, jobs):
        """jobs: dicts with harness, mode, variant, n (cases) and optional shards, env, timeout, cflags, ldflags, libextra, args, wrap"""
        todo = []
        for j in jobs:
            if not variant_ok(j["variant"]):
                self.notes.append("variant %s cannot run on this machine" % j["variant"]); continue
            todo.append(j)
        for key in {(j["variant"], tuple(j.get("libextra", ()))) for j in todo}:
            self.lib(key[0], key[1])
        def build(j): j["exe"] = self.exe(j["harness"], j["variant"], j.get("cflags", ()), j.get("ldflags", ()), j.get("libextra", ()))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(build, todo))
        self.log("built; running")
        runs = []
        for j in todo:
            lo, n, sh = j.get("lo", 0), j["n"], max(1, min(j.get("shards", 1), j["n"]))
            step = (n + sh - 1) // sh
            for a in range(lo, lo + n, step):
                runs.append((j, a, min(a + step, lo + n)))
        # long jobs first
        runs.sort(key=lambda r: -r[0].get("weight", 1))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda r: self.run_one(*r), runs))
    def run_one(self, j, a, b, again=False):
        with self.lock:
            self._n = getattr(self, "_n", 0) + 1
            tag = "%s.%s.%s.%d.%d" % (j["harness"], j["mode"], j["variant"], a, self._n)
        out, curf, d = [os.path.join(self.tmp, tag + x) for x in (".out", ".cur", ".d")]
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, LC_ALL="C", OMP_WAIT_POLICY="passive", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", OMP_DYNAMIC="false", **SAN_ENV)
        env.pop("VERIF_REPO", None)
        env.update(j.get("env", {}))
        cmd = list(j.get("wrap", [])) + [j["exe"], j["mode"], str(self.seed), str(a), str(b), out, curf, d] + [str(x) for x in j.get("args", [])]
        tmo = j.get("timeout", 200)
        errf = os.path.join(self.tmp, tag + ".err")
        t0 = time.time()
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            rc = None
            tlim = t0 + tmo
            while True:
                try:
                    rc = p.wait(timeout=1); break
                except subprocess.TimeoutExpired:
                    if os.path.getsize(errf) > 64 << 20: os.truncate(errf, 0)
                    if time.time() > tlim: break
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            if rc is None: p.wait()
        dt = time.time() - t0
        if os.environ.get("VERIF_DEBUG"): self.log("%s took %.1f s rc %s" % (tag, dt, rc))
        try: cur = open(curf, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        except OSError: cur = ""
        rep = dict(harness=j["harness"], mode=j["mode"], variant=j["variant"], seed=self.seed, case=None, jobkey=j.get("jobkey"))
        ok = False
        if os.path.exists(out):
            ok = self.read_out(j, out, rep)
        err = ""
        if rc is None:
            if not again:
                self.log("timeout of %s, once again" % tag)
                shutil.rmtree(d, ignore_errors=True)
                return self.run_one(dict(j, timeout=min(1.5 * tmo, 260)), a, b, again=True)
            rep["case"] = self.case_of(cur)
            self.viol("hang:%s" % j["mode"], "no end after %d s (ordinarily seconds), doing: %s" % (tmo, cur[:400]), rep)
        elif rc != 0 or not ok:
            try:
                sz = os.path.getsize(errf)
                with open(errf, "rb") as f:
                    if sz > 200000: f.seek(sz - 200000)
                    err = f.read().decode("utf-8", "replace")
            except OSError: pass
            rep["case"] = self.case_of(cur)
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: (?:Thread|Memory)Sanitizer: [^\n]*)", err)
            if m:
                kind = "sanitizer"
                what = m.group(1)
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) " + re.escape(REPO), err)
                what += " in " + ("<".join(fr[:4]) if fr else "?")
                loc = re.findall(r"(%s/[\w/]+\.c:\d+)" % re.escape(REPO), err)
                if loc: what += " at " + loc[0]
            elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGPIPE, signal.SIGSYS, signal.SIGTRAP):
                kind = "crash"
                lines = [l for l in err.strip().splitlines() if "ssert" in l or "terminated" in l or "corrupt" in l or "malloc" in l or "free" in l][-2:]
                what = signal.Signals(-rc).name + " " + " | ".join(lines)
            else:
                raise HarnessError("%s ended with %s, output complete: %s, doing: %s\n%s" % (" ".join(cmd), rc, ok, cur[:500], err[-3000:]))
            self.viol("%s:%s" % (kind, j["mode"]), "[%s] %s, doing: %s" % (j["variant"], what, cur[:500]), rep)
        shutil.rmtree(d, ignore_errors=True)
        for f in (out, curf, errf):
            try: os.unlink(f)
            except OSError: pass
    @staticmethod
    def case_of(cur):
        m = re.match(r"case (-?\d+):", cur)
        return int(m.group(1)) if m else None
    def read_out(self, j, out, rep):
        ok = False
        with open(out, errors="replace") as f:
            for l in f:
                p = l.rstrip("\n").split("\t")
                if p[0] == "V":
                    self.viol(p[1], "[%s] case %s: %s %s" % (j["variant"], p[2], p[3], p[4] if len(p) > 4 else ""), dict(rep, case=int(p[2])))
                elif p[0] == "P": self.sample("%s/%s/%s: %s" % (j["harness"], j["mode"], j["variant"], p[1]))
                elif p[0] == "E": self.ev(int(p[1])); self.stat("cases_%s_%s" % (j["mode"], j["variant"]), int(p[1]))
                elif p[0] == "D": self.cover(j["variant"] + j["mode"] + p[1])
                elif p[0] == "S": self.stat(p[1], int(p[2]))
                elif p[0] == "OK": ok = True
        return ok

    # ---- the end
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

def known_findings():
    """key -> text, per property. Lines: 'finding: property=C16 key=<key> <what fails>'"""
    r = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    except OSError: pass
    return r

def finish(ctx, level, rule, assumptions):
    known = known_findings().get(ctx.prop, {})
    seen_known, real = {}, []
    for key, detail, rep in ctx.viols:
        if key in known: seen_known[key] = detail
        else: real.append((key, detail, rep))
    for k in seen_known: print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, k, known[k]))
    cov = dict(evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct), rule=rule, samples=ctx.samples, observed=ctx.stats)
    if ctx.notes: cov["notes"] = sorted(set(ctx.notes))
    if seen_known: cov["known_findings_seen"] = sorted(seen_known)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % ctx.prop, "w") as f:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=assumptions,
                       wall_s=round(time.time() - ctx.t0, 2), violations=len(real)), f, indent=1)
    if real:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        shown = set()
        for n, (key, detail, rep) in enumerate(real):
            if key in shown and len(shown) and n > 5: continue
            shown.add(key)
            path = VERIF + "/replays/%s-%d.json" % (ctx.prop, n)
            with open(path, "w") as f: json.dump(dict(property=ctx.prop, key=key, detail=detail, replay=rep), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  %s: %s" % (key, detail[:900]))
        return 1
    if ctx.evals == 0:
        print("nothing was observed", file=sys.stderr); return 2
    print("%s: held on %d cases, %d of them distinct (%.1f s)" % (ctx.prop, ctx.evals, len(ctx.distinct), time.time() - ctx.t0))
    return 0
