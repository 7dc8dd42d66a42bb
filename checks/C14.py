SRC = ["MatrixElementCache.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "SQLite.cpp", "State.cpp", "utils.cpp", "version.cpp"]


def main(v):
    c = v.Ctx("C14")
    exe = c.build("mecache.cpp", "ubasan", only=SRC)
    c.run_many([dict(exe=exe, env={"VERIF_SHARD": i}, timeout=200) for i in range(4 if not c.thorough else 8)])
    return c.finish("each answer over histories of queries, precalculations, changes of method and defect database, restarts on the same cache "
                    "file, forks, copies, literature tables and concurrent processes is compared with an independent evaluation in the uncoupled "
                    "basis (relative 5e-7: the library takes some roots in single precision) and with a fresh cache (1e-12); non-trivial: a distinct query with a non-zero value", 1500,
                    ["the radial integral itself is judged by C13; Wigner symbols come from a GSL stand-in (the library is not installed here)"])
