from checks.C21 import SRCS


def main(v):
    c = v.Ctx("C22")
    exe = c.build("backend_race.cpp", "tsanomp", only=SRCS, more=[v.VERIF + "/stubs/gomp/gomp.cpp"])
    script = v.VERIF + "/harness/backend_race.py"
    k = c.n(6, 8)
    c.run_many([dict(exe="python3-vt", args=[script, exe, str(i), str(c.n(70, 2400))], timeout=c.n(300, 4000), label=f"races {i}",
                     env={"OPENBLAS_NUM_THREADS": "1"}) for i in range(k)], workers=k)
    return c.finish(
        "the executable under ThreadSanitizer with a stand-in for the OpenMP runtime whose synchronisation is visible to it (teams, loop schedules, barriers, "
        "critical sections, single, nested regions) and which delays threads at random where they claim iterations and enter and leave critical sections; "
        "random configurations with 2-8 threads, a first run and a second one that reuses the files; the reports of the detector, and everything delivered "
        "compared to a run with one thread", 20,
        ["interposed runtime: mutual exclusion and barriers as specified by OpenMP, nothing more; races inside of uninstrumented libraries (SQLite, GSL, libstdc++ binaries) are not seen"])
