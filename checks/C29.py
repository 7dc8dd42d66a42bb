"""Conversions between the library's containers and NumPy objects."""
import subprocess

INC = "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include'])"


def main(v):
    c = v.Ctx("C29")
    r = subprocess.run(["python3-vt", "-c", INC], capture_output=True, text=True)
    if r.returncode:
        raise v.HarnessError("python3-vt with numpy: " + r.stderr[-500:])
    inc = [x for p in r.stdout.split() for x in ("-isystem", p)]
    script = v.VERIF + "/harness/npconv.py"
    plain, asan = c.build_many([dict(harness="npbind.cpp", flavour="plain", only=[], extra=["-fPIC"] + inc, ldextra=["-shared"]),
                                dict(harness="npbind.cpp", flavour="ubasan", only=[], extra=["-fPIC"] + inc, ldextra=["-shared"])])
    pre = [subprocess.run(["g++", "-print-file-name=" + s], capture_output=True, text=True).stdout.strip() for s in ("libasan.so", "libubsan.so", "libstdc++.so")]
    th = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    jobs = [dict(exe="python3-vt", args=[script, plain, i], timeout=3000, label="conversions", env=th) for i in range(4)]
    jobs += [dict(exe="python3-vt", args=[script, asan, 100 + i], timeout=3000, label="conversions under ASan", env=dict(th, LD_PRELOAD=" ".join(pre))) for i in range(4)]
    c.run_many(jobs)
    return c.finish(
        "random containers (matrices, vectors, small arrays, memory ranges of one to three dimensions, compressed and uncompressed sparse matrices; extreme values) are "
        "handed out as copies and views of const and non-const sources; values, shape, type and ownership are compared with the source, then both sides are written in random "
        "order and the source is destroyed; random objects (types, byte orders, layouts, alignment, dimensions, no arrays) are handed in; dropped results are weighed; "
        "non-trivial: a distinct conversion", 20000,
        ["the generated binding (SWIG) is not installed: the header's functions are called directly", "empty containers may be refused",
         "the overload for sparse arguments does not compile and is not covered"])
