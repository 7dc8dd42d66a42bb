"""Runs of the backend under the race detector. Arguments: backend executable, stream, seconds."""
import hashlib
import os
import re
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyback as pb
from pyhist import Broken, compare, examine, make, one_steps
from pyvh import SCRATCH, n, out, rng

exe, part = sys.argv[1], int(sys.argv[2])
limit = time.time() + float(sys.argv[3])
r = rng(f"race-{part}")
orders = set()


def reports(text):
    """Data races: (key, report)"""
    for b in re.findall(r"WARNING: ThreadSanitizer:.*?(?:SUMMARY: [^\n]*|\Z)", text, re.S):
        kind = re.match(r"WARNING: ThreadSanitizer: ([a-z \-]+)", b).group(1).strip()
        frames = re.findall(r"#\d+ ([^\n]*?) (/\S+?):(\d+)", b)
        mine = [re.sub(r"[(<].*", "", f) + "@" + os.path.basename(p) for f, p, _ in frames if "/pairinteraction/" in p]
        yield f"race:{kind}:{mine[0] if mine else 'elsewhere'}", b


def go(c, typ, d, threads, what, schedule=0):
    res = pb.run(exe, c, typ, d, threads, dict(VERIF_SCHEDULE=str(schedule), TSAN_OPTIONS="exitcode=0 halt_on_error=0 history_size=7 second_deadlock_stack=1"), timeout=160)
    found = list(reports(res.stderr))
    for key, b in found:
        out.violation(key, f"{what}: {b[:2500]}", case)
    x = examine(c, typ, res, what, d, "race")
    if threads > 1:
        order = [o[0] for s in res.sections for o in s["outs"]]
        orders.add(tuple(order))
        out.count("parallel runs")
        out.count("results delivered out of order", sum(a > b for a, b in zip(order, order[1:])))
    return x


t = 0
while time.time() < limit and t < n(1000, 20000):
    t += 1
    c, typ = make(r, 80)
    c["steps"] = r.randint(3, 8)
    if one_steps(c) == 1 and r.random() < .6:
        a = r.choice(["Ez", "Bz", "Bz"])
        c["max" + a] = c["min" + a] + 5.
    case = f"{typ} {pb.text(c)}"
    out.case(case)
    d = [f"{SCRATCH}/r{part}{x}" for x in "ab"]
    try:
        ref = go(c, typ, d[0], 1, "one thread")
        T = r.choice([2, 3, 4, 8])
        x = go(c, typ, d[1], T, f"{T} threads", t)
        compare(ref, x, case, "threads", f"{T} threads", group="race")
        if r.random() < .5:
            x = go(c, typ, d[1], T, f"{T} threads, again", t)
            compare(ref, x, case, "threads", f"{T} threads, again", group="race")
        out.eval(case)
    except Broken:
        out.eval(case)
    for x in d:
        shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(x + ".tmp", ignore_errors=True)
out.count("orders of results seen", len(orders))
out.done()
