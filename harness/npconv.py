"""C29: monitors the conversions between the library's containers and NumPy/SciPy objects."""
import ctypes
import gc
import sys
import tracemalloc

import numpy as np
import scipy.sparse as sp

from pyvh import out, rng, n

LIB, STREAM = sys.argv[1], int(sys.argv[2])
L = ctypes.PyDLL(LIB)
P, I, G, O = ctypes.c_void_p, ctypes.c_int, ctypes.c_long, ctypes.py_object
for name, res, args in [("np_init", O, []), ("box_dense", P, [I, G, G, P, I, I, P, I]), ("box_sparse", P, [I, G, G, G, P, P, P, I]), ("box_convert", O, [P, I]),
                        ("box_data", P, [P]), ("box_bytes", G, [P]), ("box_free", None, [P]), ("as_kind", O, [I, O]), ("as_null", O, [I])]:
    f = getattr(L, name)
    f.restype, f.argtypes = res, args
L.np_init()

r = rng(f"np{STREAM}")
g = np.random.default_rng(r.randrange(1 << 40))
MODES = ["copy", "view", "copy-of-const", "view-of-const"]
DT = {0: "f8", 1: "c16", 2: "f8", 3: "c16", 4: "i4", 5: "f4", 6: "f8", 7: "f8", 8: "i4", 9: "f4", 10: "f8", 11: "c16", 12: "f4", 13: "i4"}
NAME = {0: "matrix", 1: "matrix", 2: "vector", 3: "vector", 4: "array", 5: "array", 6: "array", 7: "array", 8: "range", 9: "range", 10: "range", 11: "range",
        12: "matrix", 13: "vector"}


def values(dt, k):
    dt = np.dtype(dt)
    if dt.kind == "i":
        x = g.integers(-2**31, 2**31, k).astype(dt)
    else:
        x = g.normal(size=k) * 10.0 ** g.integers(-30, 30, k)
        if dt.kind == "c":
            x = x + 1j * g.normal(size=k)
        x = x.astype(dt)
        for s in (np.nan, np.inf, -np.inf, -0.0, 0.0, 5e-324):
            if k and r.random() < 0.15:
                x[r.randrange(k)] = s
    return x


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def raw(box):
    k = L.box_bytes(box)
    return ctypes.string_at(L.box_data(box), k) if k else b""


def size():
    u = r.random()
    return 0 if u < 0.04 else 1 if u < 0.15 else r.randrange(1, 8) if u < 0.7 else r.randrange(1, 60)


def flags(a, mode, what, case):
    f = a.flags
    if not f.aligned or not a.dtype.isnative:
        out.violation(f"layout:{what}", f"aligned {f.aligned}, byte order {a.dtype.byteorder}", case)
    if mode in (0, 2):
        if not f.owndata:
            out.violation(f"copy-not-owned:{what}", "a copy does not own its memory: it is never released", case)
        if not f.writeable:
            out.violation(f"copy-read-only:{what}", "a copy cannot be written", case)
    else:
        if f.owndata:
            out.violation(f"view-owned:{what}", "a view claims to own memory of the other side", case)
        if mode == 1 and not f.writeable:
            out.violation(f"view-read-only:{what}", "a view of something that is not const cannot be written", case)
        if mode == 3 and f.writeable:
            out.violation(f"view-of-const-writeable:{what}", "a view of something const can be written", case)


def poke(dt):
    while True:
        v = values(dt, 1)
        if not np.isnan(v[0]):
            return v[0]


def dense():
    kind = r.choice(list(DT))
    dt = np.dtype(DT[kind])
    what = NAME[kind]
    nd, ln, dims, it = 0, 0, [1, 1, 1], r.randrange(2)
    fits = True
    if what == "matrix":
        rows, cols = size(), size()
        shape = (rows, cols)
    elif what == "vector":
        rows, cols = size(), 1
        shape = (rows,)
    elif what == "array":
        rows, cols = (3, 1) if kind == 7 else (2, 1)
        shape = (rows,)
    else:
        cols = 1
        nd = r.randrange(0, 4)
        if nd == 0:
            rows = size()
            shape = (rows,)
        else:
            dims = [r.randrange(1, 7) if k < nd else 1 for k in range(3)]
            shape = tuple(dims[:nd])
            rows = int(np.prod(shape))
            ln = nd
            u = r.random()
            if u < 0.12:  # more or fewer elements than the shape needs
                rows = max(0, rows + r.choice([-3, -1, 1, 2, 17, -rows]))
                fits = rows == int(np.prod(shape))
            elif u < 0.2:  # more or fewer dimensions than announced
                ln = r.choice([k for k in (1, 2, 3) if k != nd])
                fits = False
    k = rows * cols
    x = values(dt, k)
    case = f"{what} {dt} shape {shape} elements {k} nd {nd} given {ln} iterators {it}"
    out.case(case)
    box = L.box_dense(kind, rows, cols, x.ctypes.data, nd, ln, (ctypes.c_long * 3)(*dims), it)
    live = []
    for mode in r.sample(range(4), 4):
        out.eval(case + MODES[mode] + x.tobytes()[:64].hex())
        tag = f"{what}:{MODES[mode]}"
        try:
            a = L.box_convert(box, mode)
        except RuntimeError as e:
            if not str(e).startswith("refused"):
                raise
            out.count("refused")
            if fits and k > 0:
                out.violation(f"refused:{tag}", f"a container of {k} elements is refused: {e}", case)
            continue
        if not fits:
            out.violation(f"misfit-accepted:{tag}", f"{k} elements are handed out as an array of shape {getattr(a, 'shape', a)}", case)
            continue
        out.count("dense")
        ref = x.reshape(shape, order="F")
        if type(a) is not np.ndarray or not same(np.asfortranarray(a), np.asfortranarray(ref)):
            out.violation(f"values:{tag}", f"{type(a)} {getattr(a, 'dtype', '')} {getattr(a, 'shape', '')} differs from {dt} {shape}", case)
            continue
        flags(a, mode, what, case)
        if sys.getrefcount(a) != 2:
            out.violation(f"references:{tag}", f"{sys.getrefcount(a) - 1} references to a new object", case)
        if k:
            live.append((mode, a, a.copy(order="F")))
    if raw(box) != x.tobytes():
        out.violation(f"source-changed:{what}", "the container changed while it was converted", case)
    if live and k:
        # write on either side: views follow, copies do not
        cur = x.copy()
        for _ in range(r.randrange(1, 6)):
            q = r.randrange(k)
            v = poke(dt)
            w = [t for t in live if t[1].flags.writeable]
            if w and r.random() < 0.6:
                mode, a, mine = r.choice(w)
                pos = np.unravel_index(q, shape, order="F")
                a[pos] = v
                if mode == 1:
                    cur[q] = v
                else:
                    mine[pos] = v
                who = MODES[mode]
            else:
                ctypes.memmove(L.box_data(box) + q * dt.itemsize, np.array([v], dtype=dt).ctypes.data, dt.itemsize)
                cur[q] = v
                who = "container"
            out.count("writes")
            if raw(box) != cur.tobytes():
                out.violation(f"write-through:{what}:{who}", f"after a write to the {who} the container is not as expected", case)
                cur = np.frombuffer(raw(box), dtype=dt).copy()
            for mode, a, mine in live:
                ref = cur.reshape(shape, order="F") if mode in (1, 3) else mine
                if not same(np.asfortranarray(a), np.asfortranarray(ref)):
                    out.violation(f"aliasing:{what}:{MODES[mode]}", f"after a write to the {who} the {MODES[mode]} is not as expected", case)
    kept = [(a, mine) for mode, a, mine in live if mode in (0, 2)]
    live = a = None
    L.box_free(box)
    junk = [np.full(max(1, k), 7, dtype=dt) for _ in range(3)]
    for a, mine in kept:
        if not same(np.asfortranarray(a), np.asfortranarray(mine)):
            out.violation(f"copy-lost:{what}", "a copy changed when the container went away", case)
        out.count("copies outliving the container")
    del junk


def sparse():
    z = r.randrange(2)
    dt = np.dtype("c16" if z else "f8")
    rows, cols = size() or 1, size() or 1
    full = rows * cols
    k = min(full, 0 if r.random() < 0.08 else r.randrange(1, 2 + min(full, 200)))
    pos = sorted(r.sample(range(full), k))
    j = np.array([p // rows for p in pos], dtype="i4")
    i = np.array([p % rows for p in pos], dtype="i4")
    x = values(dt, k)
    compress = r.random() < 0.85
    case = f"sparse {dt} {rows}x{cols} entries {k} compressed {compress}"
    out.case(case)
    box = L.box_sparse(z, rows, cols, k, i.ctypes.data, j.ctypes.data, x.ctypes.data, int(compress))
    live = []
    for mode in r.sample(range(4), 4):
        tag = f"sparse:{MODES[mode]}"
        out.eval(case + MODES[mode] + x.tobytes()[:64].hex())
        try:
            m = L.box_convert(box, mode)
        except RuntimeError as e:
            if not str(e).startswith("refused"):
                raise
            out.count("refused")
            if compress and k > 0:
                out.violation(f"refused:{tag}", f"a compressed matrix with {k} entries is refused: {e}", case)
            continue
        out.count("sparse")
        if not sp.issparse(m) or m.format != "csc" or m.shape != (rows, cols) or m.dtype != dt or m.nnz != k:
            out.violation(f"values:{tag}", f"{type(m)} {getattr(m, 'shape', '')} {getattr(m, 'dtype', '')} {getattr(m, 'nnz', '')} instead of {dt} {(rows, cols)} {k}", case)
            continue
        c = m.tocoo()
        o = np.lexsort((c.row, c.col))
        if not (np.array_equal(c.row[o], i) and np.array_equal(c.col[o], j) and c.data[o].tobytes() == x.tobytes()):
            out.violation(f"values:{tag}", "the entries differ", case)
            continue
        if sys.getrefcount(m) != 2:
            out.violation(f"references:{tag}", f"{sys.getrefcount(m) - 1} references to a new object", case)
        if mode == 3:
            for nm in ("data", "indices", "indptr"):
                if getattr(m, nm).flags.writeable and np.shares_memory(getattr(m, nm), np.frombuffer((ctypes.c_char * max(1, len(raw(box)))).from_address(L.box_data(box)), dtype="i1")):
                    out.violation(f"view-of-const-writeable:sparse:{nm}", "a view of something const can be written", case)
        live.append((mode, m, m.data.copy()))
    if live and k:
        cur = np.frombuffer(raw(box), dtype=dt).copy()
        for _ in range(r.randrange(1, 5)):
            q, v = r.randrange(k), poke(dt)
            w = [t for t in live if t[1].data.flags.writeable]
            if w and r.random() < 0.6:
                mode, m, mine = r.choice(w)
                m.data[q] = v
                if mode == 1:
                    cur[q] = v
                else:
                    mine[q] = v
                who = MODES[mode]
            else:
                ctypes.memmove(L.box_data(box) + q * dt.itemsize, np.array([v], dtype=dt).ctypes.data, dt.itemsize)
                cur[q] = v
                who = "container"
            out.count("writes")
            if raw(box) != cur.tobytes():
                out.violation(f"write-through:sparse:{who}", f"after a write to the {who} the container is not as expected", case)
                cur = np.frombuffer(raw(box), dtype=dt).copy()
            for mode, m, mine in live:
                if m.data.tobytes() != (cur if mode in (1, 3) else mine).tobytes():
                    out.violation(f"aliasing:sparse:{MODES[mode]}", f"after a write to the {who} the {MODES[mode]} is not as expected", case)
    kept = [(m, mine) for mode, m, mine in live if mode in (0, 2)]
    live = m = None
    L.box_free(box)
    junk = [np.full(max(1, k), 7, dtype=dt) for _ in range(3)]
    for m, mine in kept:
        c = m.tocoo()
        o = np.lexsort((c.row, c.col))
        if m.data.tobytes() != mine.tobytes() or not np.array_equal(c.row[o], i) or not np.array_equal(c.col[o], j):
            out.violation("copy-lost:sparse", "a copy changed when the container went away", case)
        out.count("copies outliving the container")
    del junk


def memory():
    """Converted objects that Python has dropped must not keep their memory."""
    for what in ("matrix", "sparse"):
        for mode in range(4):
            k = 200
            x = values("f8", k * 20)
            if what == "matrix":
                box = L.box_dense(0, k, 20, x.ctypes.data, 0, 0, (ctypes.c_long * 3)(1, 1, 1), 0)
            else:
                i = np.arange(k * 20, dtype="i4") % k
                j = np.arange(k * 20, dtype="i4") // k
                box = L.box_sparse(0, k, 20, k * 20, i.ctypes.data, j.ctypes.data, x.ctypes.data, 1)
            case = f"{what} {MODES[mode]} of {k * 20} elements, again and again"
            out.case(case)
            L.box_convert(box, mode)
            reps = 40
            gc.collect()
            tracemalloc.start()
            a = tracemalloc.get_traced_memory()[0]
            for _ in range(reps):
                L.box_convert(box, mode)
            gc.collect()
            b = tracemalloc.get_traced_memory()[0]
            tracemalloc.stop()
            out.eval(case + str(STREAM))
            out.count("memory rounds", reps)
            if b - a > reps * 60:
                out.violation(f"leak:{what}:{MODES[mode]}", f"{reps} results that were dropped keep {b - a} bytes", case)
            L.box_free(box)


ASDT = {0: "f8", 1: "c16", 2: "f8", 3: "c16", 4: "f4", 5: "i4"}
OTHERS = ["f8", "c16", "f4", "i4", "i8", "u4", "c8", "f2", "g", "b1", ">f8", ">c16", ">f4", ">i4", "u8", "i2", "U3", "O", "M8[s]"]


def argument():
    """Arrays handed over as arguments: read exactly, or refused."""
    kind = r.randrange(6)
    dt = np.dtype(ASDT[kind])
    vec = kind in (2, 3, 5)
    u = r.random()
    obj = None
    if u < 0.07:
        obj = r.choice([None, [1.0, 2.0], 3.0, "abc", (1.0,), {}, np.float64(3), sp.csc_matrix(np.eye(3)), b"12345678", range(4), np.ndarray, memoryview(b"12345678"), object()])
    else:
        d = dt if u < 0.75 else np.dtype(r.choice(OTHERS))
        ndim = r.choice([1, 2, 2, 3, 0] if not vec else [1, 1, 1, 2, 0])
        shape = tuple(size() for _ in range(ndim))
        if ndim == 3:
            shape = tuple(min(s, 6) for s in shape)
        cnt = int(np.prod(shape))
        base = values(dt, cnt)
        if d.kind in "UOMb":
            a = np.zeros(shape, dtype=d, order=r.choice("FC"))
        else:
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    a = np.asarray(base.reshape(shape)).astype(d, order=r.choice("FFFC"))
        w = r.random()
        if w < 0.12 and ndim:
            a = a[::-1]
        elif w < 0.22 and ndim:
            a = a[..., ::2]
        elif w < 0.3 and ndim:
            a = a[1:]
        elif w < 0.36:
            a = a.T
        elif w < 0.42 and d.kind not in "OM":
            buf = np.zeros(a.nbytes + 1, dtype="u1")
            b = np.ndarray(a.shape, dtype=a.dtype, buffer=buf.data, offset=1, order="F")
            b[...] = a
            a = b
        elif w < 0.46:
            a.flags.writeable = False
        elif w < 0.5 and ndim == 2:
            a = a.view(np.matrix)
        elif w < 0.54 and ndim:
            a = np.broadcast_to(a, (3,) + a.shape) if ndim < 2 else a
        obj = a
    isarr = isinstance(obj, np.ndarray)
    if isarr:
        fits = (obj.ndim == 1 or (obj.ndim == 2 and not vec)) and obj.dtype == dt and obj.flags.f_contiguous and obj.flags.aligned
        case = f"argument {'vector' if vec else 'matrix'} {dt} from {obj.dtype.str} {obj.shape} strides {obj.strides} {type(obj).__name__} aligned {obj.flags.aligned}"
        why = ("dimensions" if not (obj.ndim == 1 or (obj.ndim == 2 and not vec)) else "type" if obj.dtype != dt and obj.dtype.newbyteorder("=") != dt else
               "byte-order" if obj.dtype != dt else "order" if not obj.flags.f_contiguous else "alignment")
        before = (obj.tobytes() if obj.dtype.kind != "O" else b"", obj.flags.writeable)
    else:
        fits = False
        why = "no-array"
        case = f"argument {'vector' if vec else 'matrix'} {dt} from {type(obj).__name__}"
    out.case(case)
    out.eval(case)
    refs = sys.getrefcount(obj)
    try:
        got = L.as_kind(kind, obj)
    except RuntimeError as e:
        if not str(e).startswith("refused"):
            raise
        got = None
    if sys.getrefcount(obj) != refs and obj is not None:
        out.violation("argument-references", f"{sys.getrefcount(obj) - refs} references gained by the conversion of an argument", case)
    if got is None:
        out.count("arguments refused")
        if fits:
            out.violation("argument-refused", "an array of the right type, shape and order is refused", case)
        return
    out.count("arguments read")
    rows, cols, data, copied = got
    if not fits:
        if isarr and obj.dtype == dt and why in ("order", "alignment", "dimensions"):
            # read all the same: then at least exactly
            ref = obj if obj.ndim <= 2 else None
            shape = None if ref is None else (ref.shape + (1, 1))[:2] if ref.ndim else (1, 1)
            if ref is not None and (rows, cols) == shape and data == ref.reshape(shape).tobytes(order="F"):
                return
        out.violation(f"argument-accepted:{why}", f"read as {rows}x{cols}", case)
        return
    shape = (obj.shape[0], 1) if obj.ndim == 1 else obj.shape
    if (rows, cols) != shape or data != np.asarray(obj).tobytes(order="F") or not copied:
        out.violation("argument-values", f"{shape} is read as {rows}x{cols}, values equal {data == np.asarray(obj).tobytes(order='F')}", case)
    if (obj.tobytes(), obj.flags.writeable) != before:
        out.violation("argument-changed", "the argument is changed", case)


for k in (0, 1):
    try:
        L.as_null(k)
        out.violation("argument-accepted:null", "no object at all is accepted", "null")
    except RuntimeError as e:
        if not str(e).startswith("refused"):
            raise
for q in range(n(700, 20000)):
    dense()
    sparse()
    for _ in range(3):
        argument()
memory()
out.done()
