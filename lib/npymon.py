"""C12, C13: numpy and Python's zipfile as independent readers and writers of the files."""
import os, io, re, ast, struct, random, zipfile, zlib, shutil, multiprocessing
import numpy as np

KINDS = (["<f2", "<f4", "<f8", "<f16", "|i1", "<i2", "<i4", "<i8", "|u1", "<u2", "<u4", "<u8", "<c8", "<c16", "<c32", "|b1"] +
         [">f4", ">f8", ">i2", ">i4", ">u8", ">c8", ">f2"])
COMPS = [0, 8, 12, -1]

def dump_array(f, name, typ, endian, fortran, elem, shape, data):
    n = name.encode("utf-8", "surrogateescape")
    sh = list(shape) + [0] * (8 - len(shape))
    f.write(struct.pack("<I", len(n)) + n + bytes([ord(typ), ord(endian), int(fortran), len(shape)]) + struct.pack("<9QQ", elem, *sh, len(data)) + data)

def rnd_shape(r, maxel):
    nd = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8])
    sh = []
    tot = 1
    for _ in range(nd):
        k = r.random()
        if k < 0.04: d = 0
        elif k < 0.3: d = 1
        else:
            lim = max(1, min(maxel // max(tot, 1), r.choice([3, 5, 9, 17, 100, 1025, 5000])))
            d = r.randint(1, lim)
        sh.append(d); tot *= max(d, 1)
    if 0 in sh and r.random() < 0.4:      # long dimensions cost nothing when another one is 0
        sh = [d if d == 0 else (d if r.random() < 0.6 else r.choice([2**31 - 1, 2**31, 3000000000, 2**33 + 1])) for d in sh]
        p = 1
        for d in sh: p *= max(d, 1)
        if p > 2**50: sh = [min(d, 3) for d in sh]
    r.shuffle(sh)
    return tuple(sh)

def rnd_dtype(r):
    k = r.random()
    if k < 0.12: return "|S%d" % r.choice([1, 2, 3, 7, 8, 12, 40, 300])
    if k < 0.22: return r.choice("<>") + "U%d" % r.choice([1, 2, 3, 5, 8, 25, 100])
    return r.choice(KINDS)

def rnd_array(r, big=False):
    ds = rnd_dtype(r)
    dt = np.dtype(ds)
    maxel = (3 << 20) // dt.itemsize if big else r.choice([10, 200, 3000, 20000])
    sh = rnd_shape(r, max(1, maxel))
    if big: sh = tuple(d for d in sh if d < 2**31)[:7] 
    n = 1
    for d in sh: n *= d
    if big and n * dt.itemsize > 8 << 20: sh, n = (1000,), 1000
    raw = r.randbytes(n * dt.itemsize) if n * dt.itemsize < 65536 or r.random() < 0.5 else bytes(n * dt.itemsize)
    if dt.kind == "U": raw = b"".join(struct.pack(ds[0] + "I", r.randint(1, 0x24f)) for _ in range(n * dt.itemsize // 4))
    if dt.kind == "S" and r.random() < 0.5: raw = bytes(b % 96 + 32 for b in raw)
    fo = r.random() < 0.35
    a = np.frombuffer(bytearray(raw), dtype=dt) if n else np.empty(0, dt)
    a = a.reshape(sh, order="F" if fo else "C")
    a = np.asarray(a, order="F" if fo else "C")
    return a, ds

def rnd_name(r, used):
    while True:
        k = r.random()
        if k < 0.5: s = r.choice(["weight_%d", "bias_%d", "arr_%d", "x%d"]) % r.randint(0, 99)
        elif k < 0.7: s = "".join(r.choice("abcXYZ019._- ") for _ in range(r.randint(1, 80))).strip() or "q"
        elif k < 0.8: s = r.choice(["100%", "%s%n%d", "a%5$s", "%%"]) + str(r.randint(0, 99))
        elif k < 0.9: s = r.choice(["sub/dir/a", "ÅØæ", "名前", "a.b.npy"]) + str(r.randint(0, 99))
        else: s = "n" * r.choice([70, 75, 76, 79, 80, 80])
        if len(s.encode()) <= 80 and s not in used and s + ".npy" not in used and s != "file":
            used.add(s); return s

def fortran_of(a):
    return bool(a.flags.f_contiguous and not a.flags.c_contiguous)
def describe(a):
    """as numpy's file format has it: descr, fortran_order, shape, bytes in memory order"""
    f = fortran_of(a)
    e = a.dtype.str[0]
    return a.dtype.kind if a.dtype.kind != "b" else "b", e, f, a.dtype.itemsize, a.shape, a.tobytes(order="F" if f else "C")

def old_numpy(a, style, r):
    """the bytes older versions of numpy wrote for the array"""
    f = fortran_of(a)
    shp = "(" + ", ".join("%d%s" % (d, "L" if style == "py2" else "") for d in a.shape) + ("," if len(a.shape) == 1 else "") + ")"
    h = "{'descr': '%s', 'fortran_order': %s, 'shape': %s, }" % (a.dtype.str, f, shp)
    al = 16 if style in ("16", "py2") else 64
    pad = (-(10 + len(h) + 1)) % al
    h += " " * (pad + (r.choice([0, 64, 1024]) if style == "roomy" else 0)) + "\n"
    return b"\x93NUMPY\x01\x00" + struct.pack("<H", len(h)) + h.encode() + a.tobytes(order="F" if f else "C")

def gen_arrays(arg):
    d, seed, lo, hi = arg
    for c in range(lo, hi):
        r = random.Random("%d-%d" % (seed, c))
        n = r.choice([1, 1, 2, 3, 3, 4, 6, 9]) if r.random() < 0.95 else 0
        if c % 211 == 5: n = 150
        many = c % 635 == 8
        if many: n = r.randint(1001, 1100)
        used, arrs = set(), []
        for i in range(n):
            a, ds = rnd_array(r, big=(c % 61 == 7 and i == 0))
            arrs.append((rnd_name(r, used), a))
        longn = c % 47 == 11      # names in an archive of numpy can be longer than the library's own
        if longn: arrs = [(nm + "/" + r.choice("xy%_") * r.randint(1, 400) + str(i), a) for i, (nm, a) in enumerate(arrs)]
        native = all(a.dtype.str[0] in "<|" for _, a in arrs)
        comp = r.randrange(len(COMPS)); level = r.choice([0, 1, 6, 9]) if COMPS[comp] in (8, -1, 12) else 0
        flags = (0 if native and r.random() < 0.6 else 1) | (r.choice([0, 0, 1, 2]) << 1) | (8 if r.random() < 0.2 or many else 0) | (16 if r.random() < 0.3 else 0) | (32 if longn else 0)
        npc = r.random() < 0.5
        with open("%s/c%d.exp" % (d, c), "wb") as f:
            f.write(struct.pack("<5I", n, comp, level, flags, int(npc)))
            for nm, a in arrs: dump_array(f, nm, *describe(a))
        for i, (nm, a) in enumerate(arrs):
            p = "%s/c%d_%d.npy" % (d, c, i)
            st = r.choice(["np", "np", "np", "16", "py2", "roomy"])
            if st == "np": np.save(p, a)
            else: open(p, "wb").write(old_numpy(a, st, r))
        (np.savez_compressed if npc else np.savez)("%s/c%d.npz" % (d, c), **{nm: a for nm, a in arrs})
    return hi - lo

def read_exp(path):
    b = open(path, "rb").read()
    n, comp, level, flags, npc = struct.unpack_from("<5I", b, 0)
    return n, comp, level, flags, npc, read_descrs(b, 20, n)[0]
def read_descrs(b, o, n):
    out = []
    for _ in range(n):
        (l,) = struct.unpack_from("<I", b, o); o += 4
        nm = b[o:o + l]; o += l
        t, e, fo, nd = b[o:o + 4]; o += 4
        v = struct.unpack_from("<10Q", b, o); o += 80
        if o + v[9] > len(b): raise ValueError("short record")
        out.append((nm, chr(t), chr(e) if e else "", bool(fo), v[0], tuple(v[1:1 + nd]), b[o:o + v[9]])); o += v[9]
    return out, o

def same(a, x):
    """numpy array a against description x; None or what differs. The memory order: what is not visible in numpy is not compared"""
    nm, t, e, fo, elem, sh, data = x
    if a.dtype.kind != t: return "type %s instead of %s" % (a.dtype.kind, t)
    if a.dtype.itemsize != elem: return "element size %d instead of %d" % (a.dtype.itemsize, elem)
    if a.shape != sh: return "shape %s instead of %s" % (a.shape, sh)
    if elem > 1 and t not in "Sb" and a.dtype.str[0] != (e if e in "<>" else "<"): return "byte order %s instead of %s" % (a.dtype.str[0], e)
    if a.tobytes(order="F" if fo else "C") != data: return "data"
    return None

def check_arrays(arg):
    d, lo, hi = arg
    bad, st = [], dict(read_by_numpy=0, members_read_by_numpy=0, compressed=0)
    for c in range(lo, hi):
        n, comp, level, flags, npc, xs = read_exp("%s/c%d.exp" % (d, c))
        for i, x in enumerate(xs):
            try:
                b = open("%s/o%d_%d.npy" % (d, c, i), "rb").read()
                a = np.load(io.BytesIO(b), allow_pickle=False)
                w = same(a, x)
                ln = struct.unpack_from("<H", b, 8)[0]
                if len(b) != 10 + ln + len(x[6]): w = w or "%d bytes follow the data" % (len(b) - 10 - ln - len(x[6]))
                if (10 + ln) % 64: w = w or "the data are not aligned to 64 bytes, as the format has it, but follow %d bytes" % (10 + ln)
                if ("'fortran_order': True" in b[10:10 + ln].decode("latin1")) != x[3]: w = w or "fortran_order"
            except Exception as ex: w = "numpy cannot read it: %r" % ex
            st["read_by_numpy"] += 1
            if w: bad.append(("numpy", c, "npy file of array %r %s%d %s: %s" % (x[0][:40], x[1], x[4], x[5], w)))
        if not n or flags & 32: continue
        for k in "op":
            names = [x[0].decode() for x in xs]
            if k == "p" and flags & 8: names = ["arr_%d.npy" % i for i in range(n)]
            want = {"o": 0, "p": COMPS[comp]}[k]
            want = (0, 8) if want == -1 else (want,)      # the default is the better of stored and deflated
            try:
                z = zipfile.ZipFile("%s/%s%d.npz" % (d, k, c))
                inf = z.infolist()
                w = None
                if [i.filename for i in inf] != names: w = "names %s instead of %s" % ([i.filename for i in inf][:6], names[:6])
                else:
                    for i, x in zip(inf, xs):
                        if i.compress_type not in want: w = "compression %d instead of %d" % (i.compress_type, want[-1]); break
                        if i.compress_type: st["compressed"] += 1
                        raw = z.read(i)
                        w = same(np.load(io.BytesIO(raw), allow_pickle=False), x)
                        st["members_read_by_numpy"] += 1
                        if w: w = "member %r: %s" % (i.filename[:40], w); break
                if not w and not flags & 8 and len(set(re.sub(r"\.npy$", "", q) for q in names)) == n:
                    zz = np.load("%s/%s%d.npz" % (d, k, c), allow_pickle=False)
                    for q, x in zip(zz.files, xs):
                        w = w or same(zz[q], x)
            except Exception as ex: w = "numpy cannot read it: %r" % ex
            if w: bad.append(("numpy", c, "%s archive of %d arrays: %s" % ({"o": "stored", "p": "compressed"}[k], n, w)))
    return bad, st

def chunks(n, k=16):
    s = max(1, (n + k - 1) // k)
    return [(a, min(a + s, n)) for a in range(0, n, s)]

def run_c12(ctx, n, jobs):
    d = os.path.join(ctx.tmp, "n%py%d"); os.makedirs(d)
    with multiprocessing.Pool(8) as pool:
        pool.map(gen_arrays, [(d, ctx.seed, a, b) for a, b in chunks(n)], 1)
        ctx.log("%d cases written" % n)
        for k, (v, frac) in enumerate(jobs):
            m = int(n * frac)
            ctx.jobs([dict(harness="h_npy", mode="arrays", variant=v, n=m, shards=8, args=[d])])
            if k == 0:
                for bad, st in pool.map(check_arrays, [(d, a, b) for a, b in chunks(m)], 1):
                    for key, c, t in bad: ctx.viol(key, "case %d: %s" % (c, t), dict(case=c, seed=ctx.seed))
                    for q in st: ctx.stat(q, st[q])
                ctx.log("checked with numpy")
    shutil.rmtree(d, ignore_errors=True)
    d = os.path.join(ctx.tmp, "bignpy"); os.makedirs(d)
    ctx.jobs([dict(harness="h_npy", mode="big", variant="native", n=4 if not ctx.thorough else 40, shards=1 if not ctx.thorough else 3, args=[d], timeout=400)])
    shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ C13: any bytes
def parse_npy(b):
    """('ok', descr) the strict reading, ('short',) strict header but not all data, ('odd', header end) header this reader does not judge, ('bad',) no npy file"""
    if len(b) < 10 or b[:6] != b"\x93NUMPY" or b[6] != 1: return ("bad",)
    L = struct.unpack_from("<H", b, 8)[0]
    if len(b) < 10 + L: return ("bad",)
    h = b[10:10 + L]
    m = re.match(rb"^\{'descr': '([<>|])([a-zA-Z])(\d{1,30})', 'fortran_order': (True|False), 'shape': \(((?:\d{1,30}, ?)*\d{0,30},?)\), ?\} *\n?$", h)
    if not m: return ("odd", 10 + L)
    elem = int(m.group(3)) * (4 if m.group(2) == b"U" else 1)
    if elem == 0: return ("bad",)
    if re.search(rb"(^|[ ,])0\d", m.group(5)): return ("odd", 10 + L)
    sh = tuple(int(x) for x in re.findall(rb"\d+", m.group(5)))
    if len(sh) > 8: return ("bad",)
    n = elem
    for s in sh: n *= s
    if elem >= 2**63 or any(s >= 2**63 for s in sh): return ("short",) if n else ("odd", 10 + L)
    if 10 + L + n > len(b): return ("short",)
    return ("ok", (m.group(2).decode(), m.group(1).decode(), m.group(4) == b"True", elem, sh, b[10 + L:10 + L + n]))

def judge(b, res):
    """is the array (or None) a right answer for the bytes?"""
    v = parse_npy(b)
    if res is None: return None
    nm, t, e, fo, elem, sh, data = res
    if v[0] in ("bad", "short"): return "an array was returned for %s" % ("a file that is not a npy file" if v[0] == "bad" else "a file with less data than its header says")
    n = elem
    for s in sh: n *= s
    if v[0] == "odd":
        if v[1] + n > len(b): return "the array has %d bytes of data, the file only %d" % (n, len(b) - v[1])
        if data != b[v[1]:v[1] + n]: return "the data is not that of the file"
        return None
    x = v[1]
    if (t, fo, elem, sh) != (x[0], x[2], x[3], x[4]) or (e or x[1]) != x[1]: return "the array is %s%s %d %s %s, the file says %s" % (e, t, elem, fo, sh, x[:5])
    if data != x[5]: return "the data is not that of the file"
    return None

def mutate(r, b, k=None):
    b = bytearray(b)
    k = k or r.choice(["flip", "flip", "byte", "byte", "trunc", "trunc", "ins", "del", "dup", "zero", "rand"])
    for _ in range(1 if r.random() < 0.6 else r.randint(2, 6)):
        if not b: break
        lim = len(b) if r.random() < 0.5 else min(len(b), 140)
        p = r.randrange(lim)
        if k == "flip": b[p] ^= 1 << r.randrange(8)
        elif k == "byte": b[p] = r.choice([0, 255, 0x25, 0x27, 0x28, 0x29, 0x2c, 0x30, 0x39, 0x2d, 0x0a, r.randrange(256)])
        elif k == "trunc": del b[r.randrange(len(b)):]
        elif k == "ins": b[p:p] = bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
        elif k == "del": del b[p:p + r.randint(1, 20)]
        elif k == "dup": b[p:p] = b[p:p + r.randint(1, 40)]
        elif k == "zero": b[p:p + r.randint(1, 40)] = bytes(min(40, len(b) - p))[:r.randint(1, 40)]
        else: b[p:p + 4] = r.randbytes(4)
    return bytes(b)

HEADS = ["{'descr': '<f4', 'fortran_order': False, 'shape': (%s), }",
         "{'descr': '%s', 'fortran_order': False, 'shape': (3,), }",
         "{'descr': '<f4', 'fortran_order': %s, 'shape': (3,), }", "%s"]
FILL = [["18446744073709551615,", "9223372036854775807, 2,", "4294967296, 4294967296,", "2305843009213693952, 2,", "4611686018427387904,", "4611686018427387905,", "1073741824, 1073741824, 4,", "-1,", "-3, -4", "3, -1", "1, 2, 3, 4, 5, 6, 7, 8, 1,", "1," * 100, "0, 18446744073709551615", "99999999999999999999999,", "0x10,", "3.5,", "(3,)", "None", "'3'", "3L, 2L", " ", "3 4", "3,,4", "3" * 5000, "1000000,", "2147483648,", "100000000000,", "65536, 65536, 65536, 65536,", "6,", "7,"],
        ["<f", "f4", "<", "", "<f4294967296", "<f9223372036854775807", "<f18446744073709551616", "<f-4", "|O", "<f0", "<U1073741824", "<U4611686018427387904", "<U4611686018427387905", "<U4611686018427387907", "<U9223372036854775807", "<U2305843009213693953", "|S18446744073709551617", "<f18446744073709551620", "|S4294967297", "<M8[ns]", "|V16", "|S0", "|S99999999999", "%s%n", "<\x00f4", "<f4" * 300, ">f4", "=f4", "<i3", "<c7", "<f 4", "<f4'", "<f12"],
        ["true", "0", "", "T", "Tru", "Fals", "None", "FalseTrue"],
        ["", "{", "{}", "'descr': '", "'descr': '<f4', 'fortran_order': ", "'descr': '<f4', 'fortran_order': False, 'shape': ", "'descr': '<f4', 'fortran_order': False, 'shape': (", "'descr': '<f4', 'fortran_order': False, 'shape': (3", "'descr': '<f4', 'fortran_order': False, 'shape': (3,", "{'shape': (3,), 'fortran_order': False, 'descr': '<f4'}", "{\"descr\": \"<f4\", \"fortran_order\": False, \"shape\": (3,)}", "{'descr':'<f4','fortran_order':False,'shape':(3,)}", "{'descr': [('a', '<f4'), ('b', '<i2')], 'fortran_order': False, 'shape': (3,), }", "{'descr': '<f4', 'descr': '<f8', 'fortran_order': False, 'shape': (3,), 'shape': (9,)}", "'descr': '" + "<" * 70, "A" * 60000]]
def wrapping_shape(r):
    """dimensions whose product is small modulo 2^64 or 2^32, and at no point less than before"""
    w = r.choice([64, 64, 64, 32])
    k = r.randint(2, w - 4); a = 1 << k; b = r.randint(1, 6)
    sh = [a, (1 << (w - k)) + b]
    if r.random() < 0.4: j = r.randint(0, k); sh = [1 << j, 1 << (k - j), sh[1]]
    if r.random() < 0.3: r.shuffle(sh)
    if r.random() < 0.3: sh.insert(r.randint(0, len(sh)), r.choice([1, 1, 2, 3]))
    return "".join("%d, " % d for d in sh[:8])[:-1]
def crafted_npy(r):
    k = r.randrange(4)
    h = HEADS[k] % (r.choice(FILL[k]) if k or r.random() < 0.7 else wrapping_shape(r))
    if r.random() < 0.8: h += " " * ((-(10 + len(h) + 1)) % 64) + "\n"
    h = h.encode("latin1")[:65535]
    L = len(h)
    if r.random() < 0.2: L = r.choice([0, 1, 2, 10, L - 1, L + 1, 118, 65535, L // 2])
    return b"\x93NUMPY" + bytes([r.choice([1] * 12 + [0, 2, 3, 255]), r.choice([0, 0, 0, 1, 7])]) + struct.pack("<H", max(0, L) & 65535) + h + r.randbytes(r.choice([0, 1, 11, 12, 13, 24, 100, 4096]))

def npy_bytes(a):
    f = io.BytesIO(); np.save(f, a); return f.getvalue()
def small_array(r):
    a, _ = rnd_array(r)
    while a.nbytes > 40000: a, _ = rnd_array(r)
    return a

def gen_hostile(arg):
    d, seed, lo, hi = arg
    for c in range(lo, hi):
        r = random.Random("h%d-%d" % (seed, c))
        originals = []
        kind = r.choice(["npy", "npy", "crafted", "npz", "npz", "zip", "zip", "trunc", "junk"])
        if c % 997 == 3: kind = "bomb"
        if c % 499 == 11: kind = "empty"
        if kind == "npy": b = mutate(r, npy_bytes(small_array(r)))
        elif kind == "crafted": b = crafted_npy(r)
        elif kind == "trunc":     # every length in turn
            a = np.frombuffer(random.Random(seed * 7919 + c // 300).randbytes(96), dtype=random.Random(seed * 131 + c // 300).choice(["<f4", "<f8", "|u1", "<i2", "<c8"])); full = npy_bytes(a); b = full[:(c * 7) % (len(full) + 1)]
        elif kind == "empty": b = b""
        elif kind == "junk":
            b = r.choice([b"", b"\x93NUMPY", b"\x93NUMPY\x01\x00", b"\x93NUMPY\x01\x00\x00\x00", b"PK\x03\x04", b"PK\x05\x06" + bytes(18), b"PK\x05\x06" + bytes(17), b"hello\n", r.randbytes(r.randint(0, 300)), b"PK\x05\x06" + r.randbytes(18)])
            if r.random() < 0.3: b += r.randbytes(r.randint(0, 200))
        elif kind == "bomb":
            f = io.BytesIO()
            with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED) as z:
                z.writestr("a.npy", npy_bytes(np.zeros(5 << 20, np.float32))); z.writestr("b.npy", npy_bytes(np.zeros((3, 3))) + bytes(30 << 20))
            b = f.getvalue()
        else:
            f = io.BytesIO()
            members = []
            for i in range(r.choice([1, 2, 3, 5]) if c % 313 else 400):
                q = npy_bytes(small_array(r)) if i < 6 else npy_bytes(np.arange(3.))
                if kind == "zip":
                    z = r.random()
                    if z < 0.3: q = mutate(r, q)
                    elif z < 0.5: q = crafted_npy(r)
                    elif z < 0.6: q = r.choice([b"", b"text\n", r.randbytes(50), q + r.randbytes(5000)])
                nm = r.choice(["arr_%d.npy" % i, "weight_%d" % i, "%s%n%s%n" + str(i), "%d" * r.choice([1, 60, 3000]), "x" * r.choice([80, 81, 300, 5000, 60000]), "same", "", "dir%d/" % i, "../../x%d" % i, "é%d" % i, "bad\nname%d" % i]) if kind == "zip" else "arr_%d.npy" % i
                members.append((nm, q))
            with zipfile.ZipFile(f, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                for nm, q in members:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        zi = zipfile.ZipInfo(nm) if nm else zipfile.ZipInfo("x")
                        zi.filename = nm
                        zi.compress_type = z.compression if r.random() < 0.7 else r.choice([0, 8, 12, 14])
                        if r.random() < 0.1: zi.comment = b"%n" * 50; zi.extra = b""
                        z.writestr(zi, q)
                if r.random() < 0.1: z.comment = b"%n%s" * 200
            b = f.getvalue()
            originals = [q for _, q in members]
            if kind == "npz" or r.random() < 0.3: b = zmutate(r, b)
        open("%s/f%d" % (d, c), "wb").write(b)
        with open("%s/m%d" % (d, c), "wb") as f:
            f.write(struct.pack("<I", len(originals)))
            for q in originals: f.write(struct.pack("<I", len(q)) + q)
    return hi - lo

def zmutate(r, b):
    """mutations where a zip file is sensitive"""
    k = r.random()
    if k < 0.35: return mutate(r, b)
    sigs = [m.start() for s in (b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06") for m in re.finditer(re.escape(s), b)]
    x = bytearray(b)
    for _ in range(1 if r.random() < 0.7 else 3):
        p = r.choice(sigs) + r.randrange(46)
        if p < len(x):
            if r.random() < 0.5: x[p] ^= 1 << r.randrange(8)
            else: x[p:p + r.choice([1, 2, 4])] = r.choice([b"\xff\xff\xff\xff", bytes(4), r.randbytes(4)])[:r.choice([1, 2, 4])]
    if k < 0.45: x = x[:r.randrange(len(x) + 1)]
    elif k < 0.5: x = bytearray(r.randbytes(r.randint(1, 100))) + x
    return bytes(x)

def extract(b):
    out = []
    try:
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            for i in z.infolist():
                try: out.append(z.read(i))
                except Exception: pass
    except Exception: pass
    return out

def check_hostile(arg):
    d, lo, hi = arg
    bad, st = [], dict(arrays_judged=0, archives_judged=0, members_judged=0, strict_headers=0, short_data=0)
    for c in range(lo, hi):
        try: rb = open("%s/r%d" % (d, c), "rb").read()
        except OSError: continue
        b = open("%s/f%d" % (d, c), "rb").read()
        o = 0; v = parse_npy(b)
        if v[0] == "ok": st["strict_headers"] += 1
        if v[0] == "short": st["short_data"] += 1
        try:
            for op in ("npy_array_load", "npy_array_mmap", "npy_array_list_load"):
                (n,) = struct.unpack_from("<I", rb, o); xs, o = read_descrs(rb, o + 4, n)
                if op != "npy_array_list_load":
                    st["arrays_judged"] += 1
                    w = judge(b, xs[0] if n else None)
                    if w: bad.append(("wrong", c, "%s: %s" % (op, w)))
                elif n:
                    st["archives_judged"] += 1
                    m = open("%s/m%d" % (d, c), "rb").read(); q = 4; pool = []
                    for _ in range(struct.unpack_from("<I", m, 0)[0]):
                        (l,) = struct.unpack_from("<I", m, q); pool.append(m[q + 4:q + 4 + l]); q += 4 + l
                    pool += extract(b)
                    for x in xs:
                        st["members_judged"] += 1
                        ws = [judge(y, x) for y in pool]
                        if pool and None not in ws: bad.append(("wrong", c, "%s: array %r of the archive is none of its members: %s" % (op, x[0][:40], sorted(set(ws), key=lambda t: ("the data" not in t, t))[:2])))
                        if not pool: bad.append(("wrong", c, "%s: array %r out of an archive without members" % (op, x[0][:40])))
        except (struct.error, ValueError, IndexError): continue       # the harness died here: reported elsewhere
    return bad, st

def run_c13(ctx, n, jobs):
    d = os.path.join(ctx.tmp, "n%py%d"); os.makedirs(d)
    with multiprocessing.Pool(8) as pool:
        pool.map(gen_hostile, [(d, ctx.seed, a, b) for a, b in chunks(n, 32)], 1)
        ctx.log("%d files written" % n)
        for c in range(0, n, 37):
            with open("%s/f%d" % (d, c), "rb") as f: ctx.cover("f%08x" % zlib.crc32(f.read()))
        for k, (v, frac) in enumerate(jobs):
            m = int(n * frac)
            ctx.jobs([dict(harness="h_npy", mode="hostile", variant=v, n=m, shards=16, args=[d], env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0"))])
            for bad, st in pool.map(check_hostile, [(d, a, b) for a, b in chunks(m, 32)], 1):
                for key, c, t in bad:
                    ctx.viol(key, "[%s] file %d: %s" % (v, c, t), dict(case=c, seed=ctx.seed, harness="h_npy", mode="hostile", variant=v))
                for q in st: ctx.stat(q, st[q])
    shutil.rmtree(d, ignore_errors=True)
