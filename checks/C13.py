def main(v):
    c = v.Ctx("C13")
    exe = c.build("wavefunction.cpp", "ubasan", only=["QuantumDefect.cpp", "Wavefunction.cpp", "SQLite.cpp"])
    c.run_many([dict(exe=exe, env={"VERIF_SHARD": i}, timeout=300) for i in range(4 if not c.thorough else 8)])
    return c.finish("a wavefunction on its grid is compared point by point with an independent high-resolution solution of the same potential, "
                    "with the other method and (hydrogen) with closed forms; a radial integral with its transpose, the other method and closed forms; "
                    "non-trivial: a distinct level, pair of levels or grid search", 500,
                    ["levels above the core: effective principal quantum number positive, larger than l and not larger than n",
                     "agreement of the methods is judged for effective principal quantum numbers above 20 and l covered by the tables"])
