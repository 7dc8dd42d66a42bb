import concurrent.futures as cf
import re

from checks.C21 import SRCS

SYS = ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp",
       "Symmetry.cpp", "SQLite.cpp"]
ONE = ["ConfParser.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp", "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C24")
    system, backend, san, plain = c.build_many([dict(harness="badsystem.cpp", flavour="asan", only=SYS), dict(harness="backend.cpp", flavour="ubasan", only=SRCS, ldextra=["-rdynamic"]),
                                                dict(harness="badinput.cpp", flavour="ubasan", only=ONE), dict(harness="badinput.cpp", flavour="plain", only=ONE)])
    jobs = []
    t = c.n(1, 30)
    for part in range(c.n(1, 4)):
        jobs += [dict(exe=san, args=[m, part, k * t], timeout=1700, label=m)
                 for m, k in [("configuration", 3000), ("table", 12000), ("defects", 6000), ("matrix", 40000), ("cache", 1200)]]
        jobs += [dict(exe=system, args=["system", part * 2 + i, 6000 * t], timeout=1700, label="system") for i in range(2)]
        jobs += [dict(exe=system, args=["cache", part, 20000 * t], timeout=1700, label="cache")]
    script = v.VERIF + "/harness/badconf.py"
    jobs += [dict(exe="python3-vt", args=[script, backend, i, c.n(40, 900)], timeout=2000, label="executable") for i in range(4)]
    for j in jobs:
        j["env"] = {"VERIF_ASAN": ":max_allocation_size_mb=64"}
    # numbers that were never read: the same readers under memcheck
    def memcheck(m, k):
        rc, out, err = c.run("valgrind", ["-q", "--show-mismatched-frees=no", "--soname-synonyms=somalloc=nouserintercepts", "--error-exitcode=98", plain, m, 50, k],
                             label="memcheck " + m, timeout=2000, allow_rc=(0, 98))
        lines = [re.sub(r"^==\d+== ?", "", x) for x in err.splitlines() if x.startswith("==")]
        at = [i for i, x in enumerate(lines) if re.search(r"uninitialised|Invalid (read|write|free)|overlap", x)]
        if at:
            where = next((w.group(1) for w in (re.search(r"0x[0-9A-F]+: (.*?)[(<]", x) for x in lines[at[0]:at[0] + 12]) if w and not w.group(1).startswith(("std::", "mem"))), "")
            c.violation(f"memcheck {m}:{lines[at[0]]}:{where}", "\n".join(lines[at[0]:at[0] + 25]), {"mode": m})

    # longest first
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fs = [ex.submit(c.run, **j) for j in jobs[::-1]] + [ex.submit(memcheck, m, k * t) for m, k in [("defects", 400), ("configuration", 1500), ("table", 1500), ("matrix", 1500)]]
        for f in fs:
            f.result()
    return c.finish(
        "the real readers are given damaged, truncated, arbitrary and extreme contents: configurations (JSON text, typed access, and whole runs of the executable), tables of dipole elements, "
        "defect databases (SQL), database files of the element cache, archives (binary, portable binary, JSON) of matrices, element caches, one-atom and pair systems; the address and the "
        "undefined-behaviour sanitizers, and memcheck for numbers that were never read, watch; every accepted matrix is checked to be usable and is traversed; "
        "non-trivial: a distinct content", 20000,
        ["more than 48 MB at once are refused by the allocator (an error)", "JSON is nested at most 400 levels deep", "principal quantum numbers and numbers of steps of the runs are small or beyond the limits (a large one is a long calculation, not a fault)",
         "flags and enumerations in archives of systems and caches are not looked at (the archive library reads them unchecked); an accepted archive of a system is inspected but not used for calculations"])
