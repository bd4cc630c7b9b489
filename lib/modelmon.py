"""C10, C11: models in files, written and read with numpy, judged with Python's zipfile."""
import os, io, re, struct, random, zipfile, shutil, zlib, multiprocessing, warnings
import numpy as np
np.seterr(all="ignore"); warnings.simplefilter("ignore")
from npymon import parse_npy, mutate, zmutate, chunks, npy_bytes
ACTS = ["softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh"]

def rnd_model(r, square=False):
    L = r.choice([1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.97 else r.choice([10, 11, 25, 33, 64, 65, 99, 100, 101, 128, 130])
    sz = [r.choice([1, 2, 3, 5, 8, 9, 16, 17, 40] if L < 30 else [1, 2, 3, 8]) for _ in range(L + 1)]
    if square: sz = [sz[0]] * (L + 1)
    m = []
    for i in range(L):
        raw = r.random() < 0.3
        g = (lambda n: np.frombuffer(r.randbytes(4 * n), np.float32)) if raw else (lambda n: np.array([r.gauss(0, 1) for _ in range(n)], np.float32))
        m.append([g(sz[i] * sz[i + 1]).reshape(sz[i], sz[i + 1]), g(sz[i + 1]), r.choice(ACTS)])
    return m
def dump_model(m):
    b = struct.pack("<I", len(m))
    for w, bi, a in m:
        a = a.encode()
        b += struct.pack("<iiI", w.shape[0], w.shape[1], len(a)) + a + w.tobytes() + bi.tobytes()
    return b
def read_dump(b):
    (L,) = struct.unpack_from("<I", b, 0); o = 4; m = []
    for _ in range(L):
        i, j, k = struct.unpack_from("<iiI", b, o); o += 12
        a = b[o:o + k].decode("latin1"); o += k
        w = b[o:o + 4 * i * j]; o += 4 * i * j; bi = b[o:o + 4 * j]; o += 4 * j
        m.append((i, j, a, w, bi))
    if o != len(b): raise ValueError("short dump")
    return m
def canon(m): return [(w.shape[0], w.shape[1], a, w.tobytes(), b.tobytes()) for w, b, a in m]

def gen_import(arg):
    d, seed, lo, hi = arg
    for c in range(lo, hi):
        r = random.Random("i%d-%d" % (seed, c))
        m = rnd_model(r)
        names = [a for _, _, a in m]
        if r.random() < 0.3:                      # fewer names: the rest is linear
            k = r.randint(1, len(m)); names = names[:k]
            for i in range(k, len(m)): m[i][2] = "linear"
        width = max(len(n) for n in names)
        if r.random() < 0.4: width += r.choice([1, 2, 7, 50, 1000])
        acts = np.array([n.encode() for n in names], dtype="S%d" % width)
        arrs = [x for w, b, _ in m for x in (w, b)]
        pos = r.randint(0, len(arrs))
        arrs.insert(pos, acts)
        k = r.random()
        kw = dict((("arr_%d" % i if k < 0.4 else "%s_%d" % (r.choice(["weight", "w", "zzz", "a%d"]), i)), a) for i, a in enumerate(arrs))
        (np.savez_compressed if r.random() < 0.5 else np.savez)("%s/i%d.npz" % (d, c), **kw)
        open("%s/i%d.bin" % (d, c), "wb").write(dump_model(m))
    return 0

def check_saved(arg):
    d, lo, hi = arg
    bad, n = [], 0
    for c in range(lo, hi):
        p = "%s/s%d.npz" % (d, c)
        if not os.path.exists(p): continue
        n += 1
        try:
            m = read_dump(open("%s/s%d.bin" % (d, c), "rb").read())
            z = np.load(p, allow_pickle=False)
            fl = [z[k] for k in z.files if z[k].dtype.kind == "f"]; st = [z[k] for k in z.files if z[k].dtype.kind != "f"]
            w = None
            if len(fl) != 2 * len(m) or len(st) != 1: w = "%d float arrays and %d others for %d layers" % (len(fl), len(st), len(m))
            elif st[0].dtype.kind != "S" or [x.decode() for x in st[0]] != [x[2] for x in m]: w = "activations %r instead of %r" % (st[0], [x[2] for x in m])
            else:
                for i, x in enumerate(m):
                    for a, sh, data, what in ((fl[2 * i], (x[0], x[1]), x[3], "weight"), (fl[2 * i + 1], (x[1],), x[4], "bias")):
                        if a.dtype.str != "<f4" or a.shape != sh or not a.flags.c_contiguous or a.tobytes() != data:
                            w = w or "%s %d: %s %s, expected <f4 %s%s" % (what, i, a.dtype.str, a.shape, sh, "" if a.shape != sh else " with other data")
        except Exception as ex: w = "numpy cannot read it: %r" % ex
        if w: bad.append((c, w))
    return bad, n

def run_c10(ctx, n, nimp):
    d = os.path.join(ctx.tmp, "model"); os.makedirs(d)
    with multiprocessing.Pool(8) as pool:
        pool.map(gen_import, [(d, ctx.seed, a, b) for a, b in chunks(nimp)], 1)
        J = lambda mode, v, k: dict(harness="h_model", mode=mode, variant=v, n=k, shards=8, args=[d])
        ctx.jobs([J("roundtrip", "native", n), J("import", "native", nimp), J("import", "asan", nimp)])
        for bad, k in pool.map(check_saved, [(d, a, b) for a, b in chunks(n)], 1):
            ctx.stat("saved_files_read_by_numpy", k)
            for c, w in bad: ctx.viol("numpy", "case %d: %s" % (c, w), dict(case=c, seed=ctx.seed))
        ctx.jobs([J("roundtrip", "asan", n // 4), J("roundtrip", "sse", n // 4)])
    shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ C11
def describe(b):
    """the network a file describes, or None. ('?',) where this reader does not want to judge"""
    try:
        with zipfile.ZipFile(io.BytesIO(b)) as z: mem = [z.read(i) for i in z.infolist()]
    except Exception: return None
    fl, st = [], []
    for q in mem:
        v = parse_npy(q)
        if v[0] == "odd": return ("?",)
        if v[0] != "ok": return None
        t, e, fo, elem, sh, data = v[1]
        if t == "f" and elem == 4 and e in "<|": fl.append((fo, sh, data))
        elif t == "S": st.append((fo, sh, elem, data))
        else: return None
    L = len(fl) // 2
    if len(st) != 1 or len(fl) % 2 or L < 1: return None
    fo, sh, elem, data = st[0]
    if len(sh) != 1 or not 1 <= sh[0] <= L: return None
    names = [data[i * elem:(i + 1) * elem].split(b"\0")[0].decode("latin1") for i in range(sh[0])]
    names = [a if a in ACTS else "linear" for a in names] + ["linear"] * (L - sh[0])
    m = []
    for i in range(L):
        w, bi = fl[2 * i], fl[2 * i + 1]
        if len(w[1]) != 2 or len(bi[1]) != 1 or w[1][1] != bi[1][0] or 0 in w[1]: return None
        if m and m[-1][1] != w[1][0]: return None
        wd = w[2] if not w[0] else np.frombuffer(w[2], "<f4").reshape(w[1], order="F").tobytes()
        m.append((w[1][0], w[1][1], names[i], wd, bi[2]))
    return m

def zip_of(r, members, comp=None):
    f = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(f, "w", comp if comp is not None else r.choice([0, 0, 8])) as z:
            for nm, q in members: z.writestr(nm, q)
    return f.getvalue()

def semantic(r, m):
    """members of a model file with something wrong (or harmless) in them"""
    L = len(m)
    names = np.array([a.encode() for _, _, a in m])
    A = [[x for w, b, _ in m for x in (w, b)], names]
    arrs = [x for w, b, _ in m for x in (w, b)]
    raws = None
    k = r.randrange(38); i = r.randrange(L)
    wi, bi = 2 * i, 2 * i + 1
    W, B = m[i][0], m[i][1]
    acts = [names]
    if k == 0: arrs[wi] = W.astype(r.choice(["<f8", "<f2", "<i4", "<u4", "<c8", "<i8"]))
    elif k == 1: arrs[bi] = B.astype(r.choice(["<f8", "<f2", "<i4", "<u4", "<c8", "<i8", "|i1"]))
    elif k == 2: arrs[wi] = W.astype(">f4")
    elif k == 3: arrs[bi] = B.astype(">f4")
    elif k == 4: arrs[wi] = W.reshape(-1)
    elif k == 5: arrs[wi] = W.reshape(W.shape + (1,))
    elif k == 6: arrs[bi] = B.reshape(1, -1)
    elif k == 7: arrs[bi] = B.reshape(-1, 1)
    elif k == 8: arrs[bi] = np.float32(1)
    elif k == 9: arrs[wi] = np.asfortranarray(W)
    elif k == 10: arrs[bi] = np.resize(B, max(0, len(B) + r.choice([-1, 1, 2, 100, -len(B)])))
    elif k == 11: arrs[wi] = np.resize(W, (W.shape[0], W.shape[1] + r.choice([1, 7])))
    elif k == 12: arrs[wi] = np.resize(W, (W.shape[0] + r.choice([1, 2]), W.shape[1]))
    elif k == 13: arrs[wi] = np.ascontiguousarray(W.T)
    elif k == 14: del arrs[r.randrange(len(arrs))]
    elif k == 15: arrs.insert(r.randint(0, len(arrs)), np.float32([1, 2]))
    elif k == 16: acts = []
    elif k == 17: acts = [names.astype("U")]
    elif k == 18: acts = [names, names]
    elif k == 19: acts = [np.concatenate([names, names[:1]])]
    elif k == 20: acts = [names.reshape(1, -1)]
    elif k == 21: acts = [np.array(b"relu")]
    elif k == 22: acts = [np.array([], dtype="S5")]
    elif k == 23: acts = [np.array([b"x" * 500] * L)]
    elif k == 24: acts = [np.array([r.choice([b"relux", b"", b"TANH", b"%s%n%s", b"sym@/nonexistent/lib.so", b"@", b"a@", b"@b", b"re\0lu", b"rel", b"\xff\xfe"]) for _ in range(L)], dtype="S30")]
    elif k == 25: arrs = arrs[:2 * i] + arrs[2 * i + 2:]                 # a layer gone
    elif k == 26: arrs[wi], arrs[bi] = arrs[bi], arrs[wi]
    elif k == 27: arrs = [x for x in arrs[::2]] + [x for x in arrs[1::2]]
    elif k == 28: arrs[wi] = np.empty((0, W.shape[1]), np.float32)
    elif k == 29: arrs[wi] = np.empty((W.shape[0], 0), np.float32); arrs[bi] = np.empty(0, np.float32)
    elif k == 30: arrs = []
    elif k == 31: acts = [np.array([1, 2, 3], "<i4")]
    elif k == 32: raws = r.randrange(2 * L + 1)       # member replaced by rubbish
    members = [("a%d.npy" % j, npy_bytes(np.asarray(x))) for j, x in enumerate(arrs)]
    p = r.choice([len(members), r.randint(0, len(members))])
    members[p:p] = [("act%d" % j, npy_bytes(x)) for j, x in enumerate(acts)]
    if raws is not None and raws < len(members):
        nm, q = members[raws]
        members[raws] = (nm, r.choice([b"", b"junk", q[:r.randrange(len(q))], mutate(r, q), q[:60] + b"," + q[61:], q.replace(b"'shape': (", b"'shape': (-"), q.replace(b"<f4", b"<f3"), q.replace(b"', 'f", b"9999999', 'f")]))
    if k in (34, 35, 36) and members:        # the last bytes of an array (or of both of a layer) are missing
        hit = [r.randrange(len(members))] if k < 36 else [2 * i, 2 * i + 1]
        for j in hit:
            if j < len(members): nm, q = members[j]; members[j] = (nm, q[:-r.choice([1, 2, 3, 4, 4, 4, 8, 16, 32])])
    return members

def gen_bad(arg):
    d, seed, lo, hi = arg
    for c in range(lo, hi):
        r = random.Random("b%d-%d" % (seed, c))
        m = rnd_model(r, square=r.random() < 0.3)
        few = r.random() < 0.25
        names = [a for _, _, a in m]
        if few:
            k = r.randint(1, len(m)); names = names[:k]
            for i in range(k, len(m)): m[i][2] = "linear"
        good = [("n%d.npy" % j, npy_bytes(x)) for j, x in enumerate([x for w, b, _ in m for x in (w, b)])] + [("activations", npy_bytes(np.array([a.encode() for a in names])))]
        k = r.random(); orig = True
        if c % 401 == 7: b = b""
        elif k < 0.45: b = zip_of(r, semantic(r, m)); orig = False
        elif k < 0.6: b = zip_of(r, good); b = b[:r.randrange(len(b))]
        elif k < 0.85: b = zmutate(r, zip_of(r, good))
        else:                                   # data of some members damaged: they fail their checksums
            comp = r.choice([0, 8]); b = bytearray(zip_of(r, good, comp)); orig = False
            with zipfile.ZipFile(io.BytesIO(bytes(b))) as z: inf = z.infolist()
            if r.random() < 0.5 and len(m) > 1: i = r.randrange(len(m)); hit = [inf[2 * i], inf[2 * i + 1]]      # a whole layer
            else: hit = r.sample(inf, r.randint(1, len(inf)))
            for q in hit:
                o = q.header_offset + 30 + len(q.filename) + r.randrange(max(1, q.compress_size))
                b[o] ^= 1 << r.randrange(8)
            b = bytes(b)
        open("%s/f%d" % (d, c), "wb").write(b)
        if orig: open("%s/m%d" % (d, c), "wb").write(dump_model(m))
    return 0

def check_bad(arg):
    d, lo, hi = arg
    bad, st = [], dict(invalid_refused=0, valid_loaded=0, valid_refused=0)
    for c in range(lo, hi):
        try: x = read_dump(open("%s/r%d" % (d, c), "rb").read())
        except (OSError, ValueError, struct.error): continue
        b = open("%s/f%d" % (d, c), "rb").read()
        m = describe(b)
        if not x:
            st["valid_refused" if m else "invalid_refused"] += 1; continue
        x = [(i, j, a if a in ACTS else "linear", w, bi) for i, j, a, w, bi in x]
        if m == ("?",) or x == m: st["valid_loaded"] += 1; continue
        if os.path.exists("%s/m%d" % (d, c)) and x == [tuple(q) for q in read_dump(open("%s/m%d" % (d, c), "rb").read())]: st["valid_loaded"] += 1; continue
        s = lambda m: [(q[0], q[1], q[2], "%08x" % zlib.crc32(q[3]), "%08x" % zlib.crc32(q[4])) for q in m] if m else "nothing valid"
        bad.append((c, "the network %s was loaded from a file that describes %s" % (s(x), s(m))))
    return bad, st

def run_c11(ctx, n, jobs):
    d = os.path.join(ctx.tmp, "model"); os.makedirs(d)
    with multiprocessing.Pool(8) as pool:
        pool.map(gen_bad, [(d, ctx.seed, a, b) for a, b in chunks(n)], 1)
        for c in range(0, n): 
            with open("%s/f%d" % (d, c), "rb") as f: ctx.cover("f%08x" % zlib.crc32(f.read()))
        for k, (v, frac) in enumerate(jobs):
            m = int(n * frac)
            ctx.jobs([dict(harness="h_model", mode="bad", variant=v, n=m, shards=16, args=[d], env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0"))])
            for bad, st in pool.map(check_bad, [(d, a, b) for a, b in chunks(m)], 1):
                for c, t in bad: ctx.viol("wrong", "[%s] file %d: %s" % (v, c, t), dict(case=c, seed=ctx.seed, harness="h_model", mode="bad", variant=v))
                for q in st: ctx.stat(q, st[q])
            for c in range(m):
                try: os.unlink("%s/r%d" % (d, c))
                except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
