"""C24: the executable with damaged configurations. Whatever the file says, the process ends by itself, with success or a
reported error, and never with a memory fault, undefined behaviour or an aborting check."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf


import pyback
from pyvh import SCRATCH, SEED, out

exe, worker, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rng = random.Random(SEED * 1000 + worker)

JUNK = ["", " ", "abc", "true", "false", "1.5", "-1", "0", "1", "2", "1e400", "-1e400", "nan", "inf", "-nan", "1e-320", "99999999999999999999", "0x10", "1,5",
        "7 8", "\x01", "é", "1" * 400, "null", "[]", "2147483648", "-2147483649", "4294967295"]
INTS = {"n": list(range(-3, 12)) + [2147483647, -2147483648, 2147483646], "l": list(range(-3, 14)) + [2147483647, -2147483648], "delta": [-2147483648, -7, -2, -1, 0, 1, 2, 3],
        "steps": [-2147483648, -3, 0, 1, 2, 3]}


def base(r):
    c, kind = pyback.random_config(r)
    d = r.randint(6, 10) - int(c["n1"])
    c["n1"], c["n2"] = int(c["n1"]) + d, int(c["n2"]) + d
    c["steps"] = r.randint(1, 3)
    c["deltaNSingle"] = 0
    c["exponent"] = 3
    if "minR" in c:
        c["minR"], c["maxR"] = 1 + r.random(), 2.
    return pyback.text(c), kind


def value(r, k):
    if r.random() < .4:
        return r.choice(JUNK)
    if re.fullmatch(r"[n]\d", k):
        return str(r.choice(INTS["n"]))
    if re.fullmatch(r"l\d", k):
        return str(r.choice(INTS["l"]))
    if re.fullmatch(r"[jm]\d", k):
        return r.choice(["-0.5", "0", "0.5", "1", "1.5", "2.5", "7.5", "0.3", "1e10", "-1e10", "1e38", "nan", "inf"])
    if k.startswith("delta"):
        return str(r.choice(INTS["delta"]))
    if k == "steps":
        return str(r.choice(INTS["steps"]))
    if k.startswith("species"):
        return r.choice(["", "Rb", "Cs", "Sr1", "Sr3", "Xx", "R" * 300, "Rb'; drop table x; --", "1", "9", "-", "é"])
    if k.startswith(("min", "max")):
        return r.choice(["0", "-0", "-1", "1e-30", "1e30", "1e300", "nan", "inf", "-inf", "5", "1e-310", "0.1"])
    if k == "exponent":
        return r.choice(["-1", "0", "1", "2", "3", "4", "5", "2147483647", "-2147483648"])
    return r.choice(["true", "false", "True", "1", "0", ""])


def content(r, c):
    """The bytes of the file."""
    c = dict(c)
    what = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        k = r.choice(sorted(c))
        if r.random() < .25:
            del c[k]
            what.append("no " + k)
        else:
            c[k] = value(r, k)
            what.append(f"{k}={c[k][:40]!r}")
    items = list(c.items())
    if r.random() < .1:
        r.shuffle(items)
    if r.random() < .1:
        k, x = r.choice(items)
        items.append((k, value(r, k)))
        what.append(f"again {k}={items[-1][1][:40]!r}")

    def q(s):
        return json.dumps(s, ensure_ascii=False)
    parts = []
    for k, x in items:
        u = r.random()
        if u < .03:
            x, w = r.choice([("{}", "{}"), ("[]", "[]"), ('{"a": {"b": [1, 2]}}', "nested"), ("[1, 2, 3]", "list"), ("[" * 300 + "]" * 300, "deep")])
            parts.append(q(k) + ": " + x)
            what.append(f"{k}: {w}")
        elif u < .2 and re.fullmatch(r"-?\d+(\.\d+)?", x):
            parts.append(q(k) + ": " + x)
        else:
            parts.append(q(k) + ": " + q(x))
    b = ("{\n" + ",\n".join(parts) + "\n}\n").encode()
    u = r.random()
    if u < .06:
        b = b[:r.randint(0, len(b))]
        what.append("cut")
    elif u < .12:
        b = bytearray(b)
        for _ in range(r.randint(1, 4)):
            b[r.randrange(len(b))] = r.choice(b'{}[]",:\\\x00\xff\x80' + bytes([r.randrange(256)]))
        b = bytes(b)
        what.append("bytes")
        # no value may become one that makes the calculation large
        for k, x in re.findall(rb'"([a-zA-Z0-9]+)"\s*:\s*"?([^",\n]*)', b):
            if re.match(rb"n\d|steps|delta", k) and re.match(rb"\s*\d{2,}", x) and int(re.match(rb"\s*(\d+)", x).group(1)) > 11:
                return content(r, c)
    elif u < .15:
        b = bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
        what = ["arbitrary"]
    elif u < .17:
        b = r.choice([b"", b"{}", b"[]", b"1", b"null", b'""', b"{", b'{"a"', b'{"a":}', b"\xef\xbb\xbf{}", b'{"":""}', b"{}{}"])
        what = [repr(b)]
    return b, ", ".join(what)


FAULT = re.compile(r"Sanitizer|runtime error|Assertion|core dumped|stack smashing|free\(\)|malloc\(\)|corrupt")


def one(i, seed):
    r = random.Random(seed)
    c, kind = base(r)
    b, what = content(r, c)
    d = os.path.join(SCRATCH, f"w{worker}_{i}")
    os.makedirs(d)
    conf = os.path.join(d, "conf.json")
    with open(conf, "wb") as f:
        f.write(b)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000:exitcode=77",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
    try:
        p = subprocess.run([exe, "-c", conf, "-o", d, "-t", kind], capture_output=True, env=env, timeout=40, cwd=d)
        rc, text, std = p.returncode, p.stderr.decode(errors="replace"), p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, text, std = None, "", ""
    shutil.rmtree(d, ignore_errors=True)
    return i, what, b, kind, rc, text, std


def main():
    import time
    end = time.time() + budget
    n = 0
    while time.time() < end:
        i, what, b, kind, rc, text, std = one(n, rng.getrandbits(60))
        n += 1
        key = None
        if rc is None:
            out.count("config.too long", 1)
        elif rc == 77 or FAULT.search(text):
            m = re.search(r"(\S+\.[ch]pp:\d+)\S*: runtime error: ([^\n]*)", text)
            key = "config:" + (m.group(0)[-150:] if m else (re.search(r"ERROR: \w*Sanitizer: ([^\n]*)", text) or re.search(r"[^\n]+", text) ).group(0)[:150])
            if "allocation-size-too-big" in text or "out-of-memory" in text:
                key = None
                out.count("config.too much memory", 1)
        elif rc == -6 and "terminate called after throwing" in text:
            out.count("config.error", 1)
        elif rc < 0:
            key = f"config:signal {-rc}"
        elif rc == 0 and ">>END" in std:
            out.count("config.success", 1)
        elif rc == 0:
            key = "config:success without a result"
        else:
            out.count("config.reported", 1)
        if key:
            out.violation(key, (text[-1500:] if text else std[-300:]), f"{what} ({kind})\n{b[:1500]!r}")
        out.eval(what)
    out.done()


main()
