"""Runs of the backend: configurations, the progress protocol and the result files."""
import json
import math
import os
import re
import struct
import subprocess

import numpy as np
import scipy.sparse as sp

FIELDS = ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]


def config(**k):
    c = dict(species1="Rb", species2="Rb", n1=20, l1=0, j1=.5, m1=.5, n2=20, l2=0, j2=.5, m2=.5, deltaESingle=-1, deltaNSingle=0, deltaLSingle=1, deltaJSingle=-1,
             deltaMSingle=-1, deltaEPair=-1, deltaNPair=-1, deltaLPair=-1, deltaJPair=-1, deltaMPair=-1, diamagnetism="false", missingCalc="true",
             missingWhittaker="false", exponent=3, samebasis="true", steps=3, invE="false", invO="false", perE="false", perO="false", refE="false", refO="false",
             conserveM="false", sametrafo="false", zerotheta="false")
    for f in FIELDS:
        c["min" + f] = c["max" + f] = 0
    c.update(k)
    return c


def text(c):
    return {k: (repr(float(v)) if isinstance(v, float) else str(v)) for k, v in c.items()}


def num(x):
    return float(x)


def random_config(r, pair=None):
    c = config()
    same = r.random() < .55
    sp1 = r.choice(["Rb", "Rb", "Cs", "K", "Li"])
    sp2 = sp1 if same or r.random() < .3 else r.choice(["Rb", "Cs", "Na"])
    c.update(samebasis="true" if same else "false", species1=sp1, species2=sp2)
    n = r.randint(14, 24)
    for i in "12":
        l = r.choice([0, 0, 1])
        j = l + .5 if l == 0 or r.random() < .5 else l - .5
        c.update({"n" + i: n + (r.randint(-1, 1) if i == "2" else 0), "l" + i: l, "j" + i: j, "m" + i: r.choice([.5, .5, -.5])})
    if r.random() < .45:
        c.update({k + "2": c[k + "1"] for k in "nljm"})
    c["deltaNSingle"] = r.choice([0, 0, 1])
    c["deltaLSingle"] = 1
    c["deltaMSingle"] = r.choice([-1, -1, 1])
    c["deltaJSingle"] = r.choice([-1, -1, 1])
    if r.random() < .3:
        c["deltaESingle"] = r.choice([500, 2000, 800.5])
    cplx = r.random() < .5
    kind = r.random()
    if kind < .7:
        for f in FIELDS:
            if f[1] == "y" and not cplx:
                continue
            if r.random() < (.25 if f[1] != "z" else .5):
                s = 20 if f[0] == "E" else 1000
                a = r.uniform(-s, s)
                c["min" + f] = a
                k = r.random()
                c["max" + f] = a if k < .5 else r.uniform(-s, s) if k < .85 else a * (1 + 1e-7) if k < .95 else float(np.nextafter(a, 1e9))
                if r.random() < .15:
                    c["min" + f] = 0
    if r.random() < .3:
        c["diamagnetism"] = "true"
    if r.random() < .2:
        c.update(missingCalc="false", missingWhittaker="true")
    c["steps"] = r.randint(2, 6)
    c["exponent"] = r.choice([3, 3, 4, 2, 5])
    if r.random() < .25:
        c["deltaEPair"] = r.choice([300, 1000.5, 100])
    for d in ["N", "L", "J", "M"]:
        if r.random() < .12:
            c[f"delta{d}Pair"] = 1
    if pair is None:
        pair = r.random() < .75
    if pair:
        a = r.uniform(2, 6)
        c["minR"] = a
        k = r.random()
        c["maxR"] = a if k < .3 else r.uniform(2, 10) if k < .96 else float(np.nextafter(a, 1e9))
        if c["deltaNSingle"] == 1:
            c["deltaMPair"] = r.choice([0, 1])
    if same:
        if r.random() < .4:
            for x in "EO":
                c["inv" + x] = r.choice(["true", "false"])
        if r.random() < .3:
            for x in "EO":
                c["per" + x] = r.choice(["true", "false"])
        if r.random() < .25 and c["deltaMSingle"] == -1 and c["deltaMPair"] == -1:
            for x in "EO":
                c["ref" + x] = r.choice(["true", "false"])
    transverse = any(num(c[a + f]) != 0 for a in ("min", "max") for f in ("Ex", "Ey", "Bx", "By"))
    if not transverse and r.random() < .4:
        c["conserveM"] = "true"
    c["sametrafo"] = r.choice(["true", "false"])
    c["zerotheta"] = r.choice(["true", "false"])
    return c, ("complex" if cplx else "real")


class Bad(Exception):
    pass


def read_mat(path):
    """The file format, read strictly."""
    b = open(path, "rb").read()
    p = 0

    def take(n):
        nonlocal p
        if n < 0 or p + n > len(b):
            raise Bad(f"{path}: file too short")
        p += n
        return b[p - n:p]
    kinds = {1008: "i1", 1016: "i2", 1032: "i4", 1064: "i8", 1108: "u1", 1116: "u2", 1132: "u4", 1164: "u8", 2032: "f4", 2064: "f8"}
    idx = None

    def scalar():
        t = struct.unpack("<H", take(2))[0]
        d = np.dtype("<" + kinds[t])
        return np.frombuffer(take(d.itemsize), d)[0]

    def vector():
        t = struct.unpack("<H", take(2))[0]
        d = np.dtype("<" + kinds[t])
        k = int(np.frombuffer(take(d.itemsize), d)[0])
        t = struct.unpack("<H", take(2))[0]
        d = np.dtype("<" + kinds[t])
        return np.frombuffer(take(d.itemsize * k), d)

    def matrix():
        flags, rows, cols = int(scalar()), int(scalar()), int(scalar())
        data = vector().astype(float)
        if flags & 2:
            data = data + 1j * vector()
        ind, ptr = vector(), vector()
        ptr = np.append(ptr, len(data))
        if flags & 1:
            return sp.csr_matrix((data, ind, ptr), shape=(rows, cols)), flags
        return sp.csc_matrix((data, ind, ptr), shape=(rows, cols)), flags
    try:
        e, fe = matrix()
        v, fv = matrix()
    except KeyError as x:
        raise Bad(f"{path}: type {x}")
    if p != len(b):
        raise Bad(f"{path}: {len(b) - p} bytes left over")
    return e, v, fe, fv


class Result:
    """Blocks of a run: a list of sections {typ, bas, sta, tot, dims, outs}"""

    def __init__(self, rc, stdout, stderr):
        self.rc, self.stdout, self.stderr = rc, stdout, stderr
        self.sections, self.ended, self.bad = [], False, []
        for line in stdout.split("\n"):
            if not line.startswith(">>"):
                if ">>" in line:
                    self.bad.append(line)
                continue
            k, v = line[2:5], line[5:]
            try:
                if k == "TYP":
                    self.sections.append(dict(typ=int(v), bas=None, sta=None, tot=None, dims=[], outs=[]))
                elif k == "END":
                    self.ended = True
                elif k == "ERR":
                    self.bad.append(line)
                elif k == "BAS":
                    self.sections[-1]["bas"] = int(v)
                elif k == "STA":
                    self.sections[-1]["sta"] = v.strip()
                elif k == "TOT":
                    self.sections[-1]["tot"] = int(v)
                elif k == "DIM":
                    self.sections[-1]["dims"].append(int(v))
                elif k == "OUT":
                    m = re.fullmatch(r"(.{7})(.{7})(.{7})(.{7}) (.*)", v)
                    self.sections[-1]["outs"].append(tuple(int(m.group(i)) for i in range(1, 5)) + (m.group(5),))
                else:
                    self.bad.append(line)
            except (ValueError, AttributeError, IndexError):
                self.bad.append(line)


def run(exe, c, typ, d, threads=1, env=None, timeout=120):
    os.makedirs(d, exist_ok=True)
    t = d + ".tmp"
    os.makedirs(t, exist_ok=True)
    with open(t + "/conf.json", "w") as f:
        json.dump(text(c), f)
    e = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_DYNAMIC="false", OPENBLAS_NUM_THREADS="1", TMPDIR=t)
    e.update(env or {})
    pre = ["setarch", "-R"] if "-tsan" in exe else []
    p = subprocess.run(pre + [exe, "-c", t + "/conf.json", "-o", d, "-t", typ], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))


def states(path):
    return [tuple(float(x) for x in line.split("\t")) for line in open(path).read().splitlines()]


def load(res):
    """{(section number, step, block): (operator, projector, energies, configuration, dimension)}"""
    data = {}
    for i, s in enumerate(res.sections):
        for (k, step, blocks, block, path) in s["outs"]:
            e, v, fe, fv = read_mat(path + ".mat")
            js = json.load(open(path + ".json"))
            data[(i, step, block)] = (e, v, js, k, blocks, path)
    return data


def operators(e, v):
    ev = np.real(e.diagonal())
    op = (v @ sp.diags(ev) @ v.conj().T) if e.shape[0] else sp.csc_matrix((v.shape[0], v.shape[0]))
    pr = v @ v.conj().T
    return np.sort(ev), op, pr


def maxdiff(a, b):
    d = abs(a - b)
    return d.max() if d.nnz else 0.


def offdiagonal(e):
    d = abs(e - sp.diags(e.diagonal()))
    return d.max() if d.nnz else 0.


def expected_position(c, step, steps):
    """Fields of a step as the front end labels them"""
    x = step / (steps - 1.) if steps > 1 else 0.
    return {f: num(c["min" + f]) + x * (num(c["max" + f]) - num(c["min" + f])) for f in FIELDS}, x
