SRCS = ["main.cpp", "Interface.cpp", "ConfParser.cpp", "HamiltonianOne.cpp", "HamiltonianTwo.cpp", "Hamiltonianmatrix.cpp", "MatrixElements.cpp",
        "Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C21")
    exe = c.build("backend.cpp", "plain", only=SRCS, ldextra=["-rdynamic"])
    script = v.VERIF + "/harness/backend_crash.py"
    k = c.n(6, 8)
    c.run_many([dict(exe="python3-vt", args=[script, exe, str(i), str(k), str(c.n(70, 2400))], timeout=c.n(300, 4000), label=f"crashes {i}",
                     env={"OPENBLAS_NUM_THREADS": "1"}) for i in range(k)], workers=k)
    return c.finish(
        "the executable with its file operations interposed: at the chosen change of a file (file created, data written, synchronised, renamed, removed, closed) "
        "the process is killed before it, killed after half of the data, or the operation fails once, from then on, or is cut short; every change of a "
        "result file with every kind of fault, every kind of change of the databases, further positions at random, sequences of two faults and faults in runs "
        "with several threads; then a run on what is left, judged against an undisturbed run on an empty directory", 50,
        ["a killed process loses no data it has already handed to the operating system (no power failure)", "how many of the points were visited is in the counters; quick runs sample"])
