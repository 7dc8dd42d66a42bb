SRC = ["PerturbativeInteraction.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C19")
    exe = c.build("perturb.cpp", "asan", only=SRC)
    c.run_many([dict(exe=exe, args=[i], timeout=850, label="perturb") for i in range(8)])
    return c.finish("C6 of pair states, matrices of second order effective interactions, C3 coefficients and energies of random pairs of Rydberg states (equal and different "
                    "species, spin 0, 1/2 and 1, angles, radial methods, choices of levels) against brute-force second order sums over all dipole-reachable "
                    "intermediate states, built from Cartesian dipole operators; non-trivial: a distinct query", 5000,
                    ["queries with an intermediate level closer than 10 MHz to the level are not judged", "the brute-force sums use the radial elements that C13 checks"])
