"""Histories of backend runs on one cache directory. Arguments: backend executable, stream."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyback as pb
from pyhist import Broken, compare, effort, examine, make, one_steps
from pyvh import SCRATCH, n, out, rng

exe, part = sys.argv[1], int(sys.argv[2])
r = rng(f"hist-{part}")


def neighbour(c, typ):
    """A configuration that differs only slightly"""
    b = dict(c)
    pairs = "minR" in c
    what = r.choice(["field", "field", "R", "cutoff", "exponent", "steps", "diamagnetism", "method", "delta", "m", "swap", "zero"])
    if what == "field":
        f = r.choice([f for f in pb.FIELDS if typ == "complex" or f[1] != "y"])
        for e in ["min", "max"]:
            b[e + f] = c[e + f] * (1 + 1e-9) if c[e + f] else r.choice([1e-9, 1e-3, 1.])
        if f[1] != "z":
            b["conserveM"] = "false"
    elif what == "R" and pairs:
        b["minR"] = c["minR"] * (1 + r.choice([1e-7, 1e-12, 1e-3]))
    elif what == "cutoff":
        b[r.choice(["deltaESingle", "deltaEPair"])] = r.choice([400.25, 1500, -1])
    elif what == "exponent":
        b["exponent"] = 3 if c["exponent"] != 3 else 4
    elif what == "steps":
        b["steps"] = c["steps"] + 1
    elif what == "diamagnetism":
        b["diamagnetism"] = "false" if c["diamagnetism"] == "true" else "true"
    elif what == "method":
        b["missingCalc"], b["missingWhittaker"] = ("false", "true") if c["missingCalc"] == "true" else ("true", "false")
    elif what == "delta":
        b["deltaNSingle"] = 1 - c["deltaNSingle"]
    elif what == "m":
        b["m2"] = -c["m2"]
    elif what == "swap":
        for k in "nljm":
            b[k + "1"], b[k + "2"] = c[k + "2"], c[k + "1"]
    elif what == "zero":
        for f in pb.FIELDS:
            b["min" + f] = 0
    if effort(b) > 1000 or b == c:
        return None
    return b


def robust(c, data):
    """No energy so close to a cutoff that rounding decides, no choice among degenerate vectors"""
    if c["deltaESingle"] >= 0 or any(c[f"delta{q}Pair"] >= 0 for q in "ENLJM"):
        return False
    return c["refE"] == c["refO"] == "false"


def single(c, step, pair):
    """A configuration whose only step is the given one"""
    b = dict(c)
    s1 = one_steps(c)
    x, _ = pb.expected_position(c, step if s1 > 1 else 0, s1)
    for f in pb.FIELDS:
        b["min" + f] = b["max" + f] = x[f]
    if pair:
        y = step / (c["steps"] - 1.) if c["steps"] > 1 else 0.
        b["minR"] = b["maxR"] = pb.num(c["minR"]) + y * (pb.num(c["maxR"]) - pb.num(c["minR"]))
    return b


def trial(t):
    c, typ = make(r)
    case = f"{typ} {pb.text(c)}"
    out.case(case)
    base = f"{SCRATCH}/h{part}-{t}"
    dirs = [base + x for x in "abcd"]
    T = r.choice([2, 3, 4, 8])

    def go(conf, d, threads, what):
        return examine(conf, typ, pb.run(exe, conf, typ, d, threads), what, d)
    try:
        ref = go(c, dirs[0], 1, "first run")
        out.count("runs")
        if r.random() < .8:
            x = go(c, dirs[1], T, f"{T} threads")
            compare(ref, x, case, "threads", f"one and {T} threads")
            out.count("histories with threads")
        d = r.choice(dirs[:2])
        if not os.path.isdir(d):
            d = dirs[0]
        what = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < .35:
                x = go(c, d, r.choice([1, T]), "identical run")
                compare(ref, x, case, "again", f"identical run after {what}")
                what.append("identical run")
                out.count("histories with identical runs")
            elif k < .85:
                b = neighbour(c, typ)
                if b is None:
                    continue
                diff = {q: (c.get(q), b.get(q)) for q in b if b[q] != c.get(q)}
                what.append(f"run with {diff}")
                y = examine(b, typ, pb.run(exe, b, typ, d, r.choice([1, T])), f"{what}", d)
                shutil.rmtree(dirs[2], ignore_errors=True)
                z = examine(b, typ, pb.run(exe, b, typ, dirs[2], 1), f"fresh {what[-1]}", dirs[2])
                compare(z, y, case, "neighbour", f"fresh and after {what}")
                out.count("histories with neighbouring configurations")
            else:
                types = "complex" if typ == "real" else "real"
                examine(c, types, pb.run(exe, c, types, d, 1), "other type", d) if types == "complex" else None
                what.append("other type")
        x = go(c, d, r.choice([1, T]), f"after {what}")
        compare(ref, x, case, "later", f"after {what}")
        if robust(c, ref):
            key = r.choice(sorted({k[:2] for k in ref}))
            b = single(c, key[1], key[0] == 2)
            shutil.rmtree(dirs[3], ignore_errors=True)
            d = dirs[3] if r.random() < .6 else d
            x = examine(b, typ, pb.run(exe, b, typ, d, 1), "single step", d)
            mine = {k: v for k, v in ref.items() if k[:2] == key}
            y = {(k[0], key[1], k[2]): v for k, v in x.items() if k[0] == key[0]}
            compare(mine, y, case, "single", f"step {key} of the sweep and on its own", 3e-9, vague=3e-3)
            out.count("single steps")
        out.eval(case)
    except Broken:
        out.eval(case)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + ".tmp", ignore_errors=True)


for t in range(int(sys.argv[3]) if len(sys.argv) > 3 else n(18, 150)):
    trial(t)
out.done()
