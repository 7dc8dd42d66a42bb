"""C26: rotation elements of the front end over several sessions that share a directory of files."""
import gc
import math
import os
import resource
import shutil
import subprocess
import sys

import numpy as np

import guimod
import pyvh
from pyvh import out

utils = guimod.module("utils")
server = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
salt = sys.argv[2]
r = pyvh.rng("wigner" + salt)


def library(j, m, mp, beta):
    server.stdin.write(f"{j} {m} {mp} {beta!r}\n")
    server.stdin.flush()
    return float(server.stdout.readline())


SPIN = {}


def exact(j, m, mp, beta):
    """exp(-i beta J_y) by the spectral decomposition of J_y"""
    if j not in SPIN:
        d = int(2 * j) + 1
        ms = -j + np.arange(d)
        up = .5 * np.sqrt(j * (j + 1) - ms[:-1] * (ms[:-1] + 1))
        jy = np.zeros((d, d), complex)
        jy[np.arange(1, d), np.arange(d - 1)] = -1j * up
        jy[np.arange(d - 1), np.arange(1, d)] = 1j * up
        w, v = np.linalg.eigh(jy)
        SPIN[j] = np.round(w * 2) / 2, v
    w, v = SPIN[j]
    a, b = int(round(m + j)), int(round(mp + j))
    return float(np.real(np.sum(v[a] * np.exp(-1j * beta * w) * v[b].conj())))


def numbers(x):
    """The front end passes floats and numpy's floats"""
    return r.choice([float, np.float64])(x)


def query():
    j = r.choice([.5, 1, 1.5, 2, 2.5, 3.5, r.randint(0, 13) / 2, r.randint(0, 24) / 2])
    m, mp = -j + r.randint(0, int(2 * j)), -j + r.randint(0, int(2 * j))
    return j, m, mp


def angles():
    a = [r.choice([0., math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, 2 * math.pi, np.deg2rad(r.randint(-360, 360)), np.nextafter(math.pi / 2, 0), np.nextafter(math.pi / 2, 2)]),
         r.uniform(-7, 7), np.deg2rad(r.uniform(-180, 180))]
    b = r.choice(a)
    a += [-b, b + r.choice([1e-9, 1e-8, 3e-7, 1e-5, 1e-3]), b + 2 * math.pi, r.choice([1e-9, 2e-7, 1e-4]) * r.choice([-1, 1])]
    r.shuffle(a)
    return [float(x) for x in a[:r.randint(2, len(a))]]


def ask(w, q, beta, what, sure=True):
    j, m, mp = q
    got = w.calc(numbers(j), numbers(m), numbers(mp), beta)
    want = exact(j, m, mp, beta)
    # files are shared by angles that agree to a billionth
    tol = 1e-11 * (1 + j ** 2) + 1.01e-9 * (j + .5)
    case = f"d^{j}_({m},{mp})({beta!r}) {what}"
    out.eval(f"{q}{beta!r}")
    if not abs(got - want) <= tol:
        out.violation("value", f"{got!r} instead of {want!r}", case)
    lib = library(j, m, mp, beta)
    if not abs(got - lib) <= 2 * tol:
        out.violation("library", f"{got!r}, library {lib!r}", case)
    if not isinstance(got, float):
        out.violation("type", f"{type(got)}", case)
    out.count("elements")


def killed(d, todo, limit):
    """A session that is ended in the middle of writing its files"""
    pid = os.fork()
    if pid == 0:
        try:
            w = utils.Wignerd(d)
            for q, beta in todo:
                w.calc(*q, beta)
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            w.save()
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return os.WIFSIGNALED(st)


def trial(k):
    d = os.path.join(pyvh.SCRATCH, f"w{salt}_{k}") + r.choice(["", "/"])
    os.makedirs(d)
    an = angles()
    asked = []
    hist = []
    what = ""
    try:
        for session in range(r.randint(1, 5)):
            if r.random() < .25:
                todo = [(query(), r.choice(an)) for _ in range(r.randint(3, 25))]
                limit = r.choice([0, 1, 5, 40, 100, 300])
                what = ""
                hist.append(f"killed while saving {len(todo)} elements, after {limit} bytes")
                if killed(d, todo, limit):
                    out.count("sessions killed while saving")
                asked += todo
                continue
            ws = [utils.Wignerd(d) for _ in range(r.choice([1, 1, 1, 2]))]
            hist.append(f"session with {len(ws)} object(s)")
            out.count("sessions")
            for _ in range(r.randint(3, 40)):
                w = r.choice(ws)
                x = r.random()
                if x < .06:
                    hist.append("save")
                    w.save()
                    continue
                q, beta = r.choice(asked) if asked and x < .4 else (query(), r.choice(an))
                if asked and x > .9:  # relatives of what was asked
                    (j, m, mp), b = r.choice(asked)
                    q, beta = r.choice([((j, mp, m), b), ((j, -m, -mp), b), ((j, -mp, -m), b), ((j, -m, mp), b), ((j, m, mp), -b), ((j, mp, m), -b)])
                asked.append((q, beta))
                what = f"after {'; '.join(hist)}; object {ws.index(w)}, angles {an}"
                out.case(f"{q} {beta} {what}")
                ask(w, q, beta, what)
            if r.random() < .5:
                hist.append("explicit save")
                for w in ws:
                    w.save()
            del ws, w
            gc.collect()
        # every element once more from the files alone
        w = utils.Wignerd(d)
        what = f"last session after {"; ".join(hist)}"
        for q, beta in r.sample(asked, min(len(asked), 10)):
            ask(w, q, beta, what)
    except Exception as x:  # noqa
        out.violation("error", f"{type(x).__name__}: {x}", f"{what or hist}")
    shutil.rmtree(d)


for k in range(pyvh.n(60, 3000)):
    trial(k)
out.done()
