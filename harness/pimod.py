"""Stand-in for the generated Python module: the real library of the tree under test through a plain C interface"""
import ctypes
import sys
import types

import numpy as np
from scipy import sparse

sys.dont_write_bytecode = True
D = ctypes.c_double
P = ctypes.c_void_p


def load(path):
    lib = ctypes.CDLL(path)
    lib.pi_error.restype = ctypes.c_char_p
    lib.pi_result.restype = ctypes.POINTER(D)
    for f in ["pi_cache", "pi_one", "pi_two", "pi_copy"]:
        getattr(lib, f).restype = P
    lib.pi_cache.argtypes = [ctypes.c_char_p, ctypes.c_int]
    lib.pi_method.argtypes = [P, ctypes.c_int]
    lib.pi_cache_free.argtypes = [P]
    lib.pi_energy.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, D, ctypes.POINTER(D)]
    lib.pi_one.argtypes = [ctypes.c_int, ctypes.c_char_p, P]
    lib.pi_two.argtypes = [P, P, P]
    lib.pi_copy.argtypes = [P]
    lib.pi_free.argtypes = [P]
    lib.pi_add.argtypes = [P, P]
    lib.pi_call.argtypes = [P, ctypes.c_char_p, ctypes.POINTER(D), ctypes.c_int]

    def fail():
        raise RuntimeError(lib.pi_error().decode())

    class Cache:
        def __init__(self, path=""):
            self.p = lib.pi_cache(path.encode(), 1) or fail()

        def setMethod(self, m):
            lib.pi_method(self.p, 1 if m == "NUMEROV" else 0)

        def __del__(self):
            if getattr(self, "p", None):
                lib.pi_cache_free(self.p)

        def __reduce__(self):
            raise TypeError("a cache is not to be passed between processes here")

    class State:
        def __init__(self, species, n, l, j, m):
            if isinstance(species, str):
                if not (isinstance(n, int) and isinstance(l, int)):
                    raise TypeError("in method 'new_StateOne', argument of type 'int'")
            self.species, self.q = species, (n, l, j, m)

        def getEnergy(self):
            e = D()
            if isinstance(self.species, str):
                lib.pi_energy(self.species.encode(), self.q[0], self.q[1], self.q[2], ctypes.byref(e)) and fail()
                return e.value
            return sum(State(s, *(x[i] for x in self.q)).getEnergy() for i, s in enumerate(self.species))

        def getN(self):
            return self.q[0]

        def getL(self):
            return self.q[1]

        def getJ(self):
            return self.q[2]

        def getM(self):
            return self.q[3]

        def flat(self):
            if isinstance(self.species, str):
                return list(self.q)
            return [x[i] for i in range(2) for x in self.q]

    class System:
        cplx = 0

        def __call__(self):
            raise TypeError

        def __getattr__(self, name):
            if name.startswith("_") or name == "p":
                raise AttributeError(name)
            return lambda *a: self._call(name, *a)

        def add(self, other):
            if type(other) is not type(self):
                raise TypeError("in method 'add'")
            lib.pi_add(self.p, other.p) and fail()

        def _call(self, op, *a):
            args = []
            for x in a:
                if isinstance(x, State):
                    if x.species != self.species:
                        raise RuntimeError("species of the state")
                    args += x.flat()
                elif isinstance(x, (list, tuple, np.ndarray)):
                    args += list(x)
                elif isinstance(x, str):
                    args.append({"EVEN": 1, "ODD": -1, "NA": 0}[x])
                else:
                    args.append(x)
            args = [float(x) for x in args]
            c = (D * max(1, len(args)))(*args)
            lib.pi_call(self.p, op.encode(), c, len(args)) and fail()
            n = lib.pi_size()
            r = np.array(lib.pi_result()[:n]) if n else np.array([])
            if op.startswith("getNum"):
                return int(r[0])
            if op in ("getStates", "getMainStates"):
                r = r.reshape(-1, 4 if isinstance(self.species, str) else 8)
                if isinstance(self.species, str):
                    return [State(self.species, int(q[0]), int(q[1]), q[2], q[3]) for q in r.tolist()]
                return [State(self.species, [int(q[0]), int(q[4])], [int(q[1]), int(q[5])], [q[2], q[6]], [q[3], q[7]]) for q in r.tolist()]
            if op in ("getHamiltonian", "getBasisvectors"):
                rows, cols, nnz = (int(x) for x in r[:3])
                o = 3 + cols + 1
                re, im = r[o + nnz:o + 2 * nnz], r[o + 2 * nnz:o + 3 * nnz]
                return sparse.csc_matrix((re + 1j * im if self.cplx else re, r[o:o + nnz].astype(int), r[3:o].astype(int)), shape=(rows, cols))
            if op == "getOverlap":
                return r
            return None

        def __del__(self):
            if self.__dict__.get("p"):
                lib.pi_free(self.p)

        def __reduce__(self):
            raise TypeError("a system is not to be passed between processes here")

    def module(name, cplx):
        class SystemOne(System):
            def __init__(self, *a):
                self.cplx = cplx
                if len(a) == 1:
                    self.species, self.cache = a[0].species, a[0].cache
                    self.p = lib.pi_copy(a[0].p) or fail()
                else:
                    self.species, self.cache = a
                    self.p = lib.pi_one(cplx, self.species.encode(), self.cache.p) or fail()

        class SystemTwo(System):
            def __init__(self, *a):
                self.cplx = cplx
                if len(a) == 1:
                    self.species, self.cache = a[0].species, a[0].cache
                    self.p = lib.pi_copy(a[0].p) or fail()
                else:
                    if a[0].cplx != cplx or a[1].cplx != cplx:
                        raise TypeError("in method 'new_SystemTwo'")
                    self.species, self.cache = [a[0].species, a[1].species], a[2]
                    self.p = lib.pi_two(a[0].p, a[1].p, a[2].p) or fail()

        m = types.ModuleType(name)
        m.SystemOne, m.SystemTwo, m.StateOne, m.StateTwo, m.MatrixElementCache = SystemOne, SystemTwo, State, State, Cache
        m.NUMEROV, m.WHITTAKER, m.ODD, m.EVEN, m.NA = "NUMEROV", "WHITTAKER", "ODD", "EVEN", "NA"
        return m

    top = types.ModuleType("pairinteraction")
    top.pireal, top.picomplex = module("pairinteraction.pireal", 0), module("pairinteraction.picomplex", 1)
    sys.modules.update({"pairinteraction": top, "pairinteraction.pireal": top.pireal, "pairinteraction.picomplex": top.picomplex})
    return top
