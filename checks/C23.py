SRC = ["MatrixElementCache.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "SQLite.cpp", "State.cpp", "utils.cpp", "version.cpp"]


def main(v):
    c = v.Ctx("C23")
    exe = c.build("mecache.cpp", "ubasan", only=SRC)
    c.run_many([dict(exe=exe, args=["fail"], env={"VERIF_SHARD": i}, timeout=200, label="mefail") for i in range(4 if not c.thorough else 8)])
    return c.finish("after each injected failure (unknown species, uncovered species, mixed species, impossible precalculation, file size limit hit "
                    "while storing, truncated or overwritten file, file locked by another process) further queries in this process and in new ones "
                    "are judged against an independent evaluation; non-trivial: a distinct query answered after failures", 300,
                    ["while the cache file itself is damaged or cannot grow, an error is accepted, a wrong value never"])
