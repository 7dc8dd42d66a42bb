"""Runs of the backend that are killed, or whose writes fail, at a chosen change of a file. Arguments: backend executable, stream, number of streams."""
import os
import re
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyback as pb
from pyhist import Broken, compare, examine, make
from pyvh import SCRATCH, THOROUGH, n, out, rng

exe, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
limit = time.time() + float(sys.argv[4])
r = rng(f"crash-{part}")
rc = rng("crash-configurations")
MODES = ["kill", "torn", "fail", "full", "short"]
base = f"{SCRATCH}/c{part}"
D = base + "x"


def clear():
    for d in (D, D + ".tmp"):
        shutil.rmtree(d, ignore_errors=True)


def trace(c, typ, threads=1):
    t = base + ".trace"
    if os.path.exists(t):
        os.remove(t)
    pb.run(exe, c, typ, D, threads, dict(VERIF_FAULT_DIR=D, VERIF_FAULT_TRACE=t))
    ops = []
    for line in open(t):
        k, what, path = (line.rstrip("\n") + "  ").split(" ")[:3]
        name = re.sub(r"[0-9A-F]{32}", "*", os.path.basename(path))
        ops.append((what, name))
    return ops


def faulted(c, typ, threads, mode, k):
    return pb.run(exe, c, typ, D, threads, dict(VERIF_FAULT_DIR=D, VERIF_FAULT=f"{mode}:{k}"))


def story(c, typ, ref, faults, ops, case, first=None):
    """Faulty runs on one directory, then a good one"""
    clear()
    what = []
    if first is not None:
        pb.run(exe, first, typ, D, 1)
        what.append("a run with other parameters")
    for (mode, k, threads) in faults:
        x = faulted(c, typ, threads, mode, k)
        op = ops[k - 1] if k <= len(ops) and threads == 1 else ("", "")
        what.append(f"{mode} at change {k} {op[0]} {op[1]} ({threads} threads) -> {x.rc}")
        died = mode in ("kill", "torn")
        out.count("runs killed" if x.rc == -9 else "runs that noticed a failing write" if x.rc else "runs that got over a failing write" if not died else
                  "runs without the injected fault")
        out.count(f"fault {mode} at {op[0]} {op[1]}" if op[0] else f"fault {mode} with threads")
        out.case(f"{case} {what}")
        if x.rc == 0:
            y = examine(c, typ, x, f"a run that ended successfully: {'; '.join(what)}", D, "crash:unnoticed")
            compare(ref, y, case, "unnoticed", f"{'; '.join(what)}", group="crash")
    threads = r.choice([1, 1, 3])
    y = examine(c, typ, pb.run(exe, c, typ, D, threads), f"after {'; '.join(what)}", D, "crash")
    compare(ref, y, case, "results", f"after {'; '.join(what)}", group="crash")
    out.eval(f"{case} {what}")


def small(cfg):
    c, typ = cfg
    c["steps"] = 2
    c["deltaNSingle"] = 0
    return c, typ


configs = [small(make(rc, 150, pair=i % 3 != 2)) for i in range(n(6, 24))]
mine = 0
for i, (c, typ) in enumerate(configs):
    case = f"{typ} {pb.text(c)}"
    out.case(case)
    share = limit - (limit - time.time()) * (len(configs) - i - 1) / (len(configs) - i)
    clear()
    try:
        ref = examine(c, typ, pb.run(exe, c, typ, D, 1), "undisturbed run", D, "crash")
        clear()
        ops = trace(c, typ)
        out.count("changes of files in an undisturbed run", len(ops))
        first = dict(c)
        first["deltaESingle"] = 1234.5
        # every change of a result file, every kind of change of a database, and a random sample of the rest
        kinds = {}
        for k, o in enumerate(ops, 1):
            kinds.setdefault(o, []).append(k)
        points = []
        for o, ks in kinds.items():
            ks = list(ks)
            r.shuffle(ks)
            points += [(k, m) for k in ks[:len(ks) if o[1].endswith((".mat", ".json")) else 2] for m in MODES]
        r.shuffle(points)
        rest = [(k, m) for k in range(1, len(ops) + 1) for m in MODES]
        rest = [x for x in rest if x not in set(points)]
        r.shuffle(rest)
        todo = [x for x in points if (x[0] * 5 + MODES.index(x[1])) % parts == part] + [x for x in rest if (x[0] * 5 + MODES.index(x[1])) % parts == part]
        done = 0
        for j, (k, m) in enumerate(todo):
            if time.time() > share:
                break
            q = r.random()
            try:
                if q < .7:
                    story(c, typ, ref, [(m, k, 1)], ops, case, first if r.random() < .2 else None)
                elif q < .85:
                    story(c, typ, ref, [(m, k, 1), (r.choice(MODES), r.randint(1, len(ops)), 1)], ops, case)
                else:
                    story(c, typ, ref, [(r.choice(MODES), r.randint(1, len(ops)), r.choice([2, 4]))], ops, case)
                    story(c, typ, ref, [(m, k, 1)], ops, case)
                done += 1
            except Broken:
                out.eval(f"{case} {k} {m}")
        out.count("fault points visited", done)
        out.count("fault points not visited", len(todo) - done)
    except Broken:
        out.eval(case)
clear()
out.done()
