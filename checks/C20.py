SRCS = ["main.cpp", "Interface.cpp", "ConfParser.cpp", "HamiltonianOne.cpp", "HamiltonianTwo.cpp", "Hamiltonianmatrix.cpp", "MatrixElements.cpp",
        "Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C20")
    exe = c.build("backend.cpp", "plain", only=SRCS, ldextra=["-rdynamic"])
    script = v.VERIF + "/harness/backend_hist.py"
    c.run_many([dict(exe="python3-vt", args=[script, exe, str(k)], timeout=c.n(300, 3600), label=f"histories {k}", env={"OPENBLAS_NUM_THREADS": "1"})
                for k in range(c.n(6, 16))], workers=6)
    return c.finish(
        "random configurations of the executable (one and two atoms, one or two bases, real and complex, field and distance sweeps, symmetries, cutoffs, both "
        "methods); per history: a cold run with one thread, a cold run with 2-8 threads, then up to three runs on one of the cache directories (identical, or "
        "a configuration differing in one value, compared to its own cold run), the original configuration again, and one step as a run of its own; "
        "the protocol of every run is checked line by line against the configuration, the files are read by an independent reader and compared as energies, "
        "B E B^dagger and B B^dagger in the order of the states' quantum numbers",
        min_evals(c), ["results compared to 1e-10 of the largest energy (3e-9 for single steps, which are judged without cutoffs and reflection symmetry)",
                       "blocks of at most about 600 pair states"])


def min_evals(c):
    return 20
