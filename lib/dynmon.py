"""C23: shared libraries with custom activations, and the runs that use them."""
import os, random, subprocess
from core import HarnessError, NCPU
from concurrent.futures import ThreadPoolExecutor
def build(ctx):
    d = os.path.join(ctx.tmp, "dyn"); os.makedirs(d, exist_ok=True)
    r = random.Random(ctx.seed)
    table, cmds = [], []
    def src(n, syms):
        p = os.path.join(d, "s%d.c" % n)
        with open(p, "w") as f:
            f.write("static int used;\n")
            for s, a, b, der in syms:
                if der == 2:      # of the whole vector
                    f.write("void %s(const int n, float *y){ float m=0; for(int i=0;i<n;i++) m+=y[i]; m/=n; for(int i=0;i<n;i++) y[i]=%rf*y[i]+%rf*m; }\n" % (s, a, b))
                    f.write("void %s_derivative(const int n, const float *a, float *y){ (void)a; float m=0; for(int i=0;i<n;i++) m+=y[i]; m/=n; for(int i=0;i<n;i++) y[i]=%rf*y[i]+%rf*m; }\n" % (s, a, b))
                    continue
                f.write("void %s(const int n, float *y){ for(int i=0;i<n;i++) y[i]=%rf*y[i]+%rf; }\n" % (s, a, b))
                if der: f.write("void %s_derivative(const int n, const float *y, float *g){ (void)y; for(int i=0;i<n;i++) g[i]*=%rf; }\n" % (s, a))
        return p
    names = ["liba.so", "libb.so", "libact_with_a_rather_long_name_%s.so" % ("x" * 150), "c@at.so", "sub dir-less.so".replace(" ", "_"), "d" * 60 + "/e.so", "noext", "libz.so.1.2.3"] + ["libm%d.so" % i for i in range(16)]
    for n, f in enumerate(names):
        path = os.path.join(d, f); os.makedirs(os.path.dirname(path), exist_ok=True)
        syms = []
        for k in range(6):
            s = ["f", "g", "my_act", "x" * r.choice([1, 40, 255, 600, 1500]) + str(k), "_u%d" % k, "relu"][k]
            a = r.choice([-1, 1]) * round(r.uniform(0.3, 1.7), 3); b = round(r.uniform(-1, 1), 3)
            syms.append((s, a, b, 2 if k == 1 else int(k != 4)))
        cmds.append(["gcc", "-O1", "-w", "-shared", "-fPIC", "-fno-builtin", src(n, syms), "-o", path])
        for s, a, b, der in syms:
            nm = s + "@" + (path if "/" in f or r.random() < 0.6 or f == "noext" else f)
            table.append("%s %r %r %d" % (nm, a, b, der))
    r.shuffle(table)
    # the first entry names a library (used for symbols that are missing)
    table.sort(key=lambda t: 0 if t.split("@")[1].startswith("/") else 1)
    r2 = table[1:]; r.shuffle(r2); table[1:] = r2
    open(os.path.join(d, "table.txt"), "w").write("\n".join(table) + "\n")
    ec = os.path.join(d, "end.c")
    open(ec, "w").write("void (*at_end)(void); __attribute__((destructor)) static void fini(void){ if(at_end) at_end(); }\n"
        "void elsewhere(const int n, float *y){ for(int i=0;i<n;i++) y[i]=7; }\nvoid elsewhere_derivative(const int n, const float *y, float *g){ for(int i=0;i<n;i++) g[i]*=y[i]+7; }\n"
        "void _u4_derivative(const int n, const float *y, float *g){ for(int i=0;i<n;i++) g[i]*=y[i]+7; }\n")
    end = os.path.join(ctx.tmp, "atend.so")
    cmds.append(["gcc", "-O1", "-w", "-shared", "-fPIC", ec, "-o", end])
    with ThreadPoolExecutor(NCPU) as ex:
        for c, x in zip(cmds, ex.map(ctx.sh, cmds)):
            if x.returncode: raise HarnessError("cannot build %s\n%s" % (c, x.stdout))
    return d, end
def run_c23(ctx, n):
    d, end = build(ctx)
    env = {"LD_LIBRARY_PATH": d, "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    w = ["-Wl,--wrap=dlopen,--wrap=dlclose"]
    ctx.jobs([dict(harness="h_dyn", mode="dyn", variant=v, n=int(n * f), shards=8, env=env, ldflags=w, args=[os.path.join(d, "table.txt"), end]) for v, f in [("native", 1), ("sse", 0.3), ("blas", 0.4), ("asan", 0.4)]])
