"""Energies and states delivered by the backend, compared to an independent model. Arguments: backend executable, server of one-atom operators, stream."""
import math
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pyback as pb
from pyhist import Broken, examine, one_steps
from pyvh import SCRATCH, n, out, rng

exe, server, part = sys.argv[1], sys.argv[2], int(sys.argv[3])
r = rng(f"model-{part}")
EPS = 5e-5  # smaller coefficients of eigenvectors are dropped by the backend
ELEM, HPL, ME, EPS0 = 1.602176634e-19, 6.62607015e-34, 9.1093837015e-31, 8.9875517923e9
SERVE = subprocess.Popen([server], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
UNIT_E = 6579683.920757349 / 5.2917721067e-05 / 5142206707.0
DIA = ELEM * ELEM / (8 * ME) * 1e-12 * 1e-8 / HPL / 1e9 / UNIT_E
COULOMB = EPS0 * ELEM * ELEM / HPL * 1e6 / 1e9 / UNIT_E / UNIT_E


def ask(method, species, states, ops):
    q = f"{method}|{species}|" + ";".join(",".join(repr(float(x)) for x in s) for s in states) + "|" + ";".join(",".join(map(str, o)) for o in ops)
    SERVE.stdin.write(q.encode() + b"\n")
    SERVE.stdin.flush()
    k = int(np.frombuffer(SERVE.stdout.read(8))[0])
    x = np.frombuffer(SERVE.stdout.read(8 * k))
    m = len(states)
    return x[:m], [x[m + i * m * m:m + (i + 1) * m * m].reshape(m, m) for i in range(len(ops))]


def spin(species):
    return (int(species[-1]) - 1) / 2 if species[-1].isdigit() else .5


def nlj_range(c, i, initials):
    """One-atom states demanded by the configuration: around each of the initial states"""
    s = set()
    S = spin(c["species" + i])
    for (N, L, J, M) in initials:
        dn, dl, dj, dm = (c[f"delta{q}Single"] for q in "NLJM")
        for nn in range(max(0, N - dn), N + dn + 1):
            for l in range(max(0, L - dl) if dl >= 0 else 0, (min(nn - 1, L + dl) if dl >= 0 else nn - 1) + 1):
                js = [abs(l - S) + k for k in range(int(l + S - abs(l - S)) + 1)]
                for j in js:
                    if dj >= 0 and abs(j - J) > dj:
                        continue
                    for k in range(int(2 * j) + 1):
                        m = k - j
                        if dm >= 0 and abs(m - M) > dm:
                            continue
                        s.add((nn, l, j, m))
    return s


class Atom:
    def __init__(self, c, i, names, initials):
        self.method = 1 if c["missingWhittaker"] == "true" and c["missingCalc"] != "true" else 0
        self.species, self.names = c["species" + i], names
        self.memo = {}
        self.energies = ask(self.method, self.species, names, [])[0] - np.mean(ask(self.method, self.species, initials, [])[0])

    def op(self, kr, ka, q):
        k = (kr, ka, q)
        if k not in self.memo:
            self.memo[k] = ask(self.method, self.species, self.names, [k])[1][0]
        return self.memo[k]

    def cart(self, kr, ka):
        p, z, m = (self.op(kr, ka, q) for q in (1, 0, -1))
        return (m - p) / math.sqrt(2), 1j * (m + p) / math.sqrt(2), z

    def nn(self, i, j):
        i, j = min(i, j), max(i, j)
        r2, z, p1, m1, p2, m2 = self.op(2, 0, 0), self.op(2, 2, 0), self.op(2, 2, 1), self.op(2, 2, -1), self.op(2, 2, 2), self.op(2, 2, -2)
        zz = (2 * z + r2) / 3
        d = (p2 + m2) * math.sqrt(2 / 3)
        return {(2, 2): zz, (0, 2): (m1 - p1) / math.sqrt(6), (1, 2): 1j * (m1 + p1) / math.sqrt(6), (0, 1): -1j * (p2 - m2) / math.sqrt(6),
                (0, 0): (r2 - zz + d) / 2, (1, 1): (r2 - zz - d) / 2}[(i, j)]

    def hamiltonian(self, f, dia):
        h = np.diag(self.energies).astype(complex)
        E, B = [f["E" + x] for x in "xyz"], [f["B" + x] for x in "xyz"]
        if any(E):
            for e, d in zip(E, self.cart(1, 1)):
                h -= e * d
        if any(B):
            for b, m in zip(B, self.cart(-1, 0)):
                h -= b * m
            if dia:
                h += DIA * sum(b * b for b in B) * self.op(2, 0, 0)
                for i in range(3):
                    for j in range(3):
                        if B[i] * B[j]:
                            h -= DIA * B[i] * B[j] * self.nn(i, j)
        return h


def check_states(ev, V, H, key, what, case, exact, slack=0., full=None):
    """Energies and vectors of a block. exact: the energies the model gives; slack: what the pruning of the one-atom vectors may change."""
    scale = max(np.abs(H).max() if H.size else 0, 1.)
    if len(ev) != len(exact):
        out.violation(f"model:{key}:dimension", f"{what}: {len(ev)} energies, should be {len(exact)}", case)
        raise Broken
    if not len(ev):
        return
    out.count(f"{key} energies judged", len(ev))
    d = np.abs(np.sort(ev) - np.sort(exact))
    if not d.max() <= 1e-8 * scale + slack:
        k = int(d.argmax())
        out.violation(f"model:{key}:energies", f"{what}: energy {np.sort(ev)[k]!r}, should be {np.sort(exact)[k]!r} (difference {d[k]:.3g}, allowed {1e-8 * scale + slack:.3g})", case)
        raise Broken
    n_ = V.shape[0]
    g = np.abs(V.conj().T @ V - np.eye(V.shape[1])).max()
    bound = 6 * EPS * math.sqrt(n_) + n_ * EPS * EPS
    if not g <= bound:
        out.violation(f"model:{key}:orthonormal", f"{what}: states not orthonormal, {g:.3g} > {bound:.3g}", case)
        raise Broken
    HV = H @ V
    ray = np.real(np.sum(V.conj() * HV, axis=0) / np.sum(np.abs(V) ** 2, axis=0))
    spread = np.abs(H - np.diag(np.diag(H))).sum(axis=1).max() + np.ptp(np.real(np.diag(H)))
    d = np.abs(ray - ev)
    b = 1e-8 * scale + slack + 20 * n_ * EPS * EPS * spread + (full or 0.)
    if not d.max() <= b:
        k = int(d.argmax())
        out.violation(f"model:{key}:vectors", f"{what}: energy {ev[k]!r} delivered with a state of energy {ray[k]!r}, allowed {b:.3g}", case)
        raise Broken


def one(c, typ, s, x, y, case):
    i = "2" if y["typ"] == 1 else "1"
    q = [tuple(float(c[k + a]) if k in "jm" else c[k + a] for k in "nljm") for a in ("12" if y["typ"] == 3 else i)]
    initials = list(dict.fromkeys(q))
    want = nlj_range(c, i, initials)
    names = [tuple(a[1:]) for a in pb.states(y["sta"])]
    atom = Atom(c, i, sorted(want), initials)
    if c["deltaESingle"] >= 0:
        if any(abs(abs(e) - c["deltaESingle"]) < 1e-6 for e in atom.energies):
            return None  # cutoff decided by rounding
        want = {a for a, e in zip(atom.names, atom.energies) if abs(e) < c["deltaESingle"]}
    have = set(names)
    if have != want or len(names) != len(want):
        out.violation("model:one:basis", f"atom {i}: {len(have - want)} states too many {sorted(have - want)[:3]}, {len(want - have)} missing {sorted(want - have)[:3]}", case)
        raise Broken
    out.count("bases judged")
    atom = Atom(c, i, names, initials)
    if not names:
        return atom
    s1 = one_steps(c)
    atom.h = {}
    for (_, step, _, _, path) in sorted(y["outs"]):
        f, _ = pb.expected_position(c, step if s1 > 1 else 0, s1)
        H = atom.hamiltonian(f, c["diamagnetism"] == "true")
        e, v, _, _ = pb.read_mat(path + ".mat")
        ev, V = np.real(e.diagonal()), v.toarray()
        check_states(ev, V, H, "one", f"atom {i} step {step} {f}", case, np.linalg.eigvalsh(H),
                     1e-6 * np.abs(H - np.diag(atom.energies)).sum(axis=1).max())  # radial integrals depend on the order of the states
        atom.h[step] = H
    return atom


def pair_limits(c):
    """Function that says whether a one-atom state takes part in pair states, and the initial states of both atoms"""
    q1, q2 = ([float(c[k + x]) for k in "nljm"] for x in "12")
    lim = [c[f"delta{k}Pair"] for k in "NLJM"]
    return lambda x, init: all(d < 0 or any(abs(x[k] - i[k]) <= d for i in init) for k, d in enumerate(lim)), [[q1, q2], [q1, q2]] if c["samebasis"] == "true" else [[q1], [q2]]


def symmetric(c, a, b):
    """Do the requested symmetries transform the basis into itself?"""
    allowed, inits = pair_limits(c)
    x, y = {s for s in a.names if allowed(s, inits[0])}, {s for s in b.names if allowed(s, inits[1])}
    if not x or not y:
        return True
    if "true" in (c["refE"], c["refO"]) and any(s[:3] + (-s[3],) not in z for z in (x, y) for s in z):
        return False
    return "true" not in (c["invE"], c["invO"], c["perE"], c["perO"]) or x == y


def pair(c, typ, y, a, b, case):
    s1 = one_steps(c)
    names = [tuple(x[1:]) for x in pb.states(y["sta"])]
    na, nb = len(a.names), len(b.names)
    ia, ib = {x: k for k, x in enumerate(a.names)}, {x: k for k, x in enumerate(b.names)}
    try:
        A = np.array([ia[t[:4]] for t in names])
        B = np.array([ib[t[4:]] for t in names])
    except KeyError as k:
        out.violation("model:pair:basis", f"pair state with an unknown one-atom state {k}", case)
        raise Broken
    allowed, inits = pair_limits(c)
    fields = any(pb.num(c[e + f]) for f in pb.FIELDS for e in ("min", "max"))
    restricted = any(c[f"delta{k}Pair"] >= 0 for k in "NLJM")
    want = {(x, z) for x in a.names if allowed(x, inits[0]) for z in b.names if allowed(z, inits[1])}
    have = {(a.names[k], b.names[l]) for k, l in zip(A, B)}
    if have != want or len(names) != len(want):
        out.violation("model:pair:basis", f"{len(have - want)} pair states too many, {len(want - have)} missing", case)
        raise Broken
    out.count("bases judged")
    if fields and restricted:
        out.count("pairs not judged: restricted quantum numbers in fields")
        return
    N = len(names)
    nm = np.array(names)
    M = nm[:, 3] + nm[:, 7]
    # operators of the symmetries on pair states: target and sign
    where = {t: k for k, t in enumerate(names)}
    swap = lambda t: t[4:] + t[:4]
    flip = lambda t: t[:3] + (-t[3],) + t[4:7] + (-t[7],)

    def operator(move, sign):
        P = np.zeros((N, N))
        for k, t in enumerate(names):
            if move(t) not in where:
                return None
            P[where[move(t)], k] = sign(t)
        return P
    ops = {"inversion": lambda: operator(swap, lambda t: -(-1.) ** round(t[1] + t[5])), "permutation": lambda: operator(swap, lambda t: -1.),
           "reflection": lambda: operator(flip, lambda t: (-1.) ** round(t[1] + t[5] + t[3] + t[7] - t[2] - t[6]))}
    made = {}
    exponent = c["exponent"]
    mult = []
    for o in range(3, exponent + 1):
        W = np.zeros((N, N))
        for k1 in range(1, o - 1):
            k2 = o - 1 - k1
            for q in range(-min(k1, k2), min(k1, k2) + 1):
                W += COULOMB * (-1.) ** k2 * math.sqrt(math.comb(k1 + k2, k1 + q) * math.comb(k1 + k2, k2 + q)) * a.op(k1, k1, q)[np.ix_(A, A)] * b.op(k2, k2, -q)[np.ix_(B, B)]
        mult.append((o, W))
    eig = {}
    for (_, step, _, block, path) in sorted(y["outs"]):
        one_step = step if s1 > 1 else 0
        js = pb.json.load(open(path + ".json"))
        steps = (1 if s1 == 1 and pb.num(c["minR"]) == pb.num(c["maxR"]) else c["steps"])
        R = pb.num(c["minR"]) + (step / (steps - 1.) if steps > 1 else 0.) * (pb.num(c["maxR"]) - pb.num(c["minR"]))
        ha, hb = a.h[one_step], b.h[one_step]
        V = sum((W / R ** o for o, W in mult), np.zeros((N, N)))
        H0 = ha[np.ix_(A, A)] * (B[:, None] == B[None, :]) + (A[:, None] == A[None, :]) * hb[np.ix_(B, B)]
        H = H0 + V
        # the sector
        keep = np.ones(N, bool)
        if js["rotation"] != "":
            m = float(js["rotation"])
            keep &= (M == m) | ((M == -m) if js["reflection"] != "" else False)
        P = [np.diag(keep.astype(float))]
        broken = False
        for k in ["inversion", "permutation", "reflection"]:
            if js[k] == "":
                continue
            if k == "reflection" and any(pb.num(c[e + f]) for f in pb.FIELDS if f != "Ez" for e in ("min", "max")):
                broken = True  # only offered without such fields
                break
            if k not in made:
                made[k] = ops[k]()
            if made[k] is None:
                broken = True
                break
            P.append((np.eye(N) + int(js[k]) * made[k]) / 2)
        if broken:
            out.count("pairs not judged: symmetry not available in the fields or the basis")
            continue
        if any(np.abs(p @ H - H @ p).max() > 1e-9 * max(np.abs(H).max(), 1) for p in P):
            out.count("pairs not judged: symmetry broken by the fields or the interaction")
            continue
        if any(np.abs(p @ q - q @ p).max() > 1e-9 for p in P for q in P):
            continue
        X = np.eye(N)
        for p in P:
            X = X @ p
        w, S = np.linalg.eigh((X + X.T) / 2)
        S = S[:, w > .5]
        # energy cutoff on the energies without interaction
        slack, full = 1e-6 * np.abs(H - np.diag(np.diag(H))).sum(axis=1).max(), None
        if c["deltaEPair"] >= 0:
            h = S.conj().T @ H0 @ S
            w, T = np.linalg.eigh(h)
            if any(abs(abs(x) - c["deltaEPair"]) < 1e-5 for x in w):
                out.count("pairs not judged: cutoff decided by rounding")
                continue
            T = S @ T[:, np.abs(w) < c["deltaEPair"]]
        else:
            T = S
        h = T.conj().T @ H @ T
        if fields:
            slack += 4 * EPS * math.sqrt(N) * np.linalg.norm(V, 2)
            full = 4 * EPS * math.sqrt(N) * np.linalg.norm(V, 2)
        e, v, _, _ = pb.read_mat(path + ".mat")
        ev, vec = np.real(e.diagonal()), v.toarray()
        lab = {k: js[k] for k in ["inversion", "permutation", "reflection", "rotation"] if js[k] != ""}
        what = f"step {step} R={R!r} {lab}"
        if c["deltaEPair"] >= 0 and len(ev) and not fields:
            full = EPS * np.abs(H).sum(axis=1).max() * 4
        if full is not None and c["deltaEPair"] >= 0:
            full += EPS * np.abs(V).sum(axis=1).max() * 4
        check_states(ev, vec, H, "pair", what, case, np.linalg.eigvalsh(h) if h.size else np.zeros(0), slack, full)
        # the states lie in the sector
        if len(ev):
            d = np.abs(vec - S @ (S.conj().T @ vec)).max()
            if not d <= 4 * EPS * math.sqrt(N):
                out.violation("model:pair:sector", f"{what}: states outside of the sector, {d:.3g}", case)
                raise Broken
        out.count("pair blocks judged" + (" with symmetry" if lab else ""))


def configuration():
    while True:
        c, typ = pb.random_config(r)
        k = r.random()
        if k < .4:
            for i in "12":
                l = r.choice([0, 1, 2, 3])
                j = l + .5 if l == 0 or r.random() < .5 else l - .5
                c.update({"l" + i: l, "j" + i: j, "m" + i: r.choice([q - j for q in range(int(2 * j) + 1)])})
            if r.random() < .4:
                c["deltaLSingle"] = r.choice([0, 1, 2])
        if r.random() < .5:
            for q in "NLJM":
                c[f"delta{q}Pair"] = -1
            if r.random() < .5:
                c["deltaEPair"] = -1
        for f in pb.FIELDS:  # no neighbouring numbers
            if 0 < abs(pb.num(c["max" + f]) - pb.num(c["min" + f])) < 1e-6 * abs(pb.num(c["max" + f])):
                c["max" + f] = c["min" + f]
        for f in "xyz":
            if c["diamagnetism"] == "true" and c["maxB" + f] and r.random() < .6:
                c["maxB" + f] *= 30
        c["steps"] = r.randint(2, 3)
        q = [[tuple(float(c[k + a]) for k in "nljm") for a in ("12" if c["samebasis"] == "true" else i)] for i in "12"]
        a, b = (nlj_range(c, i, [(int(x[0]), int(x[1]), x[2], x[3]) for x in q[k]]) for k, i in enumerate("12"))
        size = len(a) * len(b) if "minR" in c else max(len(a), len(b))
        if size > n(500, 900):
            continue
        if r.random() < .04 and "minR" in c:
            c[r.choice(["ref", "per", "inv"]) + r.choice("EO")] = "true"
        return c, typ


def trial(t):
    c, typ = configuration()
    case = f"{typ} {pb.text(c)}"
    out.case(case)
    d = f"{SCRATCH}/m{part}-{t}"
    try:
        res = pb.run(exe, c, typ, d, r.choice([1, 4]))
        error = ">>ERR" in res.stdout
        if not error:
            examine(c, typ, res, "run", d, "model")
        elif res.rc == 0 or any(x["outs"] for x in res.sections if x["typ"] == 2):
            out.violation("model:refused", f"error announced, but exit status {res.rc} and results delivered", case)
            raise Broken
        atoms = {}
        for y in res.sections:
            if y["typ"] != 2:
                x = one(c, typ, res, None, y, case)
                if x is None:
                    out.count("not judged: cutoff decided by rounding")
                    return
                if not x.names:
                    out.count("not judged: no states")
                    return
                atoms[y["typ"]] = x
            else:
                ok = symmetric(c, atoms[3] if 3 in atoms else atoms[0], atoms[3] if 3 in atoms else atoms[1])
                if ok == error:
                    out.violation("model:symmetry", "error announced for a basis with the symmetry" if ok else "symmetries accepted that the basis does not have", case)
                    raise Broken
                if error:
                    out.count("symmetries refused")
                if not y["outs"]:
                    continue
                pair(c, typ, y, atoms[3] if 3 in atoms else atoms[0], atoms[3] if 3 in atoms else atoms[1], case)
        out.eval(case)
    except Broken:
        out.eval(case)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".tmp", ignore_errors=True)


for t in range(int(sys.argv[4]) if len(sys.argv) > 4 else n(120, 1500)):
    trial(t)
SERVE.stdin.close()
out.done()
