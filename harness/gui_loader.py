"""C25: what the front end understands of results and messages. Arguments: backend, writer of matrices, stream"""
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

import numpy as np

import guimod
import pyback as pb
import pyvh
from pyvh import out

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyhist import make  # noqa

guimod.qt()
loader = guimod.module("loader")
worker = guimod.module("worker")
backend, writer, salt = sys.argv[1:4]
r = pyvh.rng("gui-loader" + salt)
base = os.path.join(pyvh.SCRATCH, "g" + salt)


def same(a, b):
    """Equal as matrices, bit for bit apart from the sign of zeros"""
    a, b = a.toarray(), b.toarray()
    return a.shape == b.shape and np.array_equal(a, b)


def judge_file(path, energies, basis, cplx, params, what):
    """Every order of reading must give the same"""
    es = loader.Eigensystem(path)
    order = [r.choice(["energies", "basis", "params"]) for _ in range(r.randint(1, 5))] + r.sample(["energies", "basis"] + (["params"] if params else []), 2 + bool(params))
    if not params:
        order = [x for x in order if x != "params"]
    es2 = loader.Eigensystem(path) if r.random() < .2 else None
    case = f"{what}: {' '.join(order)}"
    out.case(case)
    for k, x in enumerate(order):
        for e in [es] + ([es2] if es2 is not None and r.random() < .5 else []):
            try:
                got = getattr(e, x)
            except Exception as err:  # noqa
                out.violation("read:error", f"{x} (read {k + 1}): {type(err).__name__}: {err}", case)
                return
            if x == "energies":
                want = np.real(energies.toarray().diagonal()) if energies.shape[0] else np.array([])
                if len(got) != len(want):
                    out.violation("energies:number", f"{len(got)} energies for {len(want)} states (read {k + 1})", case)
                elif not np.array_equal(got, want):
                    out.violation("energies", f"{got[:6]} instead of {want[:6]} (read {k + 1})", case)
            elif x == "basis":
                if got.shape != basis.shape or not same(got, basis):
                    out.violation("basis", f"read {k + 1}: {got.shape} {got.nnz} instead of {basis.shape} {basis.nnz}", case)
                elif not cplx and np.iscomplexobj(got.data):
                    out.violation("basis:kind", "complex numbers from a real file", case)
            elif got != params:
                out.violation("params", f"{got} instead of {params}", case)
    out.count("files read")
    out.eval(case)


def written(k):
    d = f"{base}_m{k}"
    os.makedirs(d)
    n = 40
    subprocess.run([writer, d, str(n), str(pyvh.SEED * 100003 + int(salt) * 1009 + k)], check=True)
    for i in range(n):
        import scipy.sparse as sp
        with open(f"{d}/{i}.txt") as f:
            kind = f.readline().strip()
            ms = []
            for _ in range(2):
                rows, cols, nnz = map(int, f.readline().split())
                m = np.zeros((rows, cols), complex if kind == "complex" else float)
                for _ in range(nnz):
                    a, b, x, y = f.readline().split()
                    v = complex(float(x), float(y)) if kind == "complex" else float(x)
                    m[int(a), int(b)] = v
                ms.append(sp.csc_matrix(m))
        if ms[0].shape[0] and ms[0].nnz == 0:
            out.count("files without a stored energy")
        judge_file(f"{d}/{i}", ms[0], ms[1], kind == "complex", None, f"matrix {i} of {n}, {kind}, {ms[0].shape} {ms[0].nnz}, {ms[1].shape} {ms[1].nnz}")
    shutil.rmtree(d)


def feed(data, sizes, stop=None):
    """The output of the backend arrives through a pipe in pieces"""
    rd, wr = os.pipe()

    def body():
        p = 0
        try:
            while p < len(data):
                k = r2.choice(sizes)
                os.write(wr, data[p:p + k])
                p += k
                if r2.random() < .05:
                    time.sleep(.0005)
        except BrokenPipeError:
            pass
        finally:
            os.close(wr)
    r2 = pyvh.rng(f"{salt}{len(data)}")
    t = threading.Thread(target=body, daemon=True)
    t.start()
    return os.fdopen(rd, "rb"), t


def drain(q):
    items = []
    while True:
        try:
            items.append(q.get_nowait())
        except queue.Empty:
            return items


class Model:
    """What the messages mean"""

    def __init__(self):
        self.out, self.bas, self.err, self.other = [[], [], []], [[], [], []], [], []
        self.typ = self.total = self.current = self.dim = self.size = 0
        self.done = False

    def line(self, s):
        k, v = s[:5], s[5:]
        if k == ">>TYP":
            self.typ = int(v)
        elif k == ">>BAS":
            self.size = int(v)
        elif k == ">>STA":
            self.bas[self.typ % 3].append(v.strip())
        elif k == ">>TOT":
            self.total, self.current = int(v), 0
        elif k == ">>DIM":
            self.dim = int(v)
        elif k == ">>OUT":
            self.current += 1
            self.out[self.typ % 3].append([int(v[7:14]), int(v[14:21]), int(v[21:28]), v[29:].strip()])
        elif k == ">>ERR":
            self.err.append(v.strip())
        elif k == ">>END":
            self.done = True
        else:
            self.other.append(s)


class Quiet:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass


def judge_messages(w, aq, errors, data, sizes, case, abort=False):
    """One run of the backend seen by the front end"""
    m = Model()
    for s in data.decode().split("\n")[:-1]:
        m.line(s)
        if m.done:
            break
    f, t = feed(data, sizes)
    del errors[:]
    shown, stdout = [], sys.stdout
    sys.stdout = q = Quiet()
    got = [[], [], []]
    try:
        w.fatal = None
        w.execute(f)
        if abort:
            time.sleep(r.choice([0, .0005, .002]))
            w.exiting = True
        else:  # the front end looks now and then
            while w.isRunning():
                shown.append(aq.message)
                time.sleep(.0003)
        if not w.wait():
            raise TimeoutError("the reader does not end")
    finally:
        sys.stdout = stdout
    t.join(10)
    if w.fatal is not None:
        out.violation("messages:fatal", f"the reader was ended by {type(w.fatal).__name__}: {w.fatal}", case)
    fin = aq.finishedgracefully
    got = [drain(x) for x in aq.dataqueues]
    bas = [list(x) for x in aq.basisfiles]
    if abort:
        if not fin and (any(got) or any(bas)):
            out.violation("messages:abort", f"left over: {got} {bas}", case)
        for i in range(3):
            if got[i] != m.out[i][:len(got[i])]:
                out.violation("messages:abort", f"{got[i]} is not the beginning of {m.out[i]}", case)
        out.count("aborted runs")
    else:
        want = m.out if m.done else [[], [], []]
        wantbas = m.bas if m.done else [[], [], []]
        if fin != m.done:
            out.violation("messages:end", f"finished: {fin}, was {m.done}", case)
        for i in range(3):
            if [list(x) for x in got[i]] != want[i]:
                out.violation("messages:results", f"queue {i}: {got[i]} instead of {want[i]}", case)
            if bas[i] != wantbas[i]:
                out.violation("messages:bases", f"queue {i}: {bas[i]} instead of {wantbas[i]}", case)
        if m.done and (aq.total, aq.current, aq.dim, aq._type) != (m.total, m.current, m.dim, m.typ):
            out.violation("messages:progress", f"{(aq.total, aq.current, aq.dim, aq._type)} instead of {(m.total, m.current, m.dim, m.typ)}", case)
        if errors != m.err:
            out.violation("messages:errors", f"shown {errors}, reported {m.err}", case)
        if q.text.splitlines() != m.other:
            out.violation("messages:other", f"passed on {q.text.splitlines()[:5]} instead of {m.other[:5]}", case)
        out.count("results assigned", sum(map(len, want)))
        out.count("errors reported", len(m.err))
        out.count("runs understood")
    out.eval(case + str(len(data)))
    return got


def word():
    return "".join(r.choice("abcXYZ019_-. ü/") for _ in range(r.randint(1, 30))).strip() or "x"


def stream():
    """Messages in the forms the backend uses"""
    s = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .2:
            s.append("Messages of the operating system, e.g. " + word())
        s.append(f">>TYP{r.randint(0, 3):7d}")
        if r.random() < .9:
            s.append(f">>BAS{r.choice([0, 1, 12, 99999, 1234567]):7d}")
        s.append(f">>STA /{word()}.csv ")
        steps, blocks = r.choice([1, 2, 7, 12]), r.choice([1, 1, 2, 8])
        s.append(f">>TOT{steps * blocks:7d}")
        todo = [(a, b) for a in range(steps) for b in range(blocks)]
        r.shuffle(todo)
        for a, b in todo[:r.choice([len(todo), len(todo), r.randint(0, len(todo))])]:
            if r.random() < .1:
                s.append(word())
            if r.random() < .05:
                s.append(f"{r.choice(['One', 'Two'])}-atom Hamiltonian, >>OUT is not at the beginning")
            s.append(f">>DIM{r.choice([1, 30, 4000, 9999999]):7d}")
            s.append(f">>OUT{1 + a * blocks + b:7d}{a:7d}{blocks:7d}{b:7d} /{word()}")
        if r.random() < .12:
            s.append(f">>ERR{r.choice(['', ' '])}{word()} could not be read")
            return s
    if r.random() < .85:
        s.append(">>END")
        if r.random() < .2:
            s.append(">>OUT      1      0      1      0 /late")
    return s


def new_front_end():
    aq = worker.AllQueues()
    w = worker.Worker(aq)
    errors = []
    w.criticalsignal.connect(errors.append)
    return aq, w, errors


def synthetic(k):
    """Several calculations of one session"""
    aq, w, errors = new_front_end()
    hist = []
    for _ in range(r.randint(1, 4)):
        s = stream()
        data = ("\n".join(s) + "\n").encode()
        abort = r.random() < .2
        hist.append(f"{'aborted' if abort else 'whole'} {s}")
        judge_messages(w, aq, errors, data, r.choice([[1], [7, 30], [4096], [100000]]), f"calculation {len(hist)} of a session, {'aborted, ' if abort else ''}{s}", abort)
        aq.clear()
        if aq.finishedgracefully or any(not x.empty() for x in aq.dataqueues) or any(aq.basisfiles) or aq.message:
            out.violation("messages:clear", f"left over after {hist}", str(s))
        if r.random() < .3:
            w = worker.Worker(aq)
            w.criticalsignal.connect(errors.append)


def real(k, fe):
    """A calculation with the backend"""
    aq, w, errors = fe
    c, typ = make(r, 120)
    if r.random() < .15:  # a single state
        c.update(deltaNSingle=0, deltaLSingle=0, deltaJSingle=0, deltaMSingle=0, deltaESingle=-1, exponent=3)
        c.update({a + f: 0 for a in ("min", "max") for f in pb.FIELDS})
    if r.random() < .1:
        c["missingCalc"] = c["missingWhittaker"] = "false"  # refused
    c["steps"] = r.randint(1, 4)
    d = f"{base}{r.choice(['', ' b', ' ü'])}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    res = pb.run(backend, c, typ, d, r.choice([1, 1, 4]))
    case = f"{typ} {pb.text(c)}"
    out.case(case)
    data = res.stdout.encode()
    if res.rc and res.rc < 0:
        out.count("backend died")
    got = judge_messages(w, aq, errors, data, [4096], case)
    aq.clear()
    if res.ended:
        want = {}
        for i, s in enumerate(res.sections):
            for (number, step, blocks, block, path) in s["outs"]:
                want.setdefault(s["typ"] % 3, []).append([step, blocks, block, path.strip()])
        for typ3, items in want.items():
            if got[typ3] != items:
                out.violation("backend:results", f"queue {typ3}: {got[typ3]} instead of {items}", case)
        for items in got:
            for (step, blocks, block, path) in items[:6]:
                e, v, _, _ = pb.read_mat(path + ".mat")
                judge_file(path, e, v, typ == "complex", json.load(open(path + ".json")), f"{case} {path}")
                out.count("results of the backend read")
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + ".tmp", ignore_errors=True)


for k in range(pyvh.n(6, 200)):
    written(k)
for k in range(pyvh.n(120, 5000)):
    synthetic(k)
fe = new_front_end()
for k in range(pyvh.n(14, 400)):
    real(k, fe)
out.done()
