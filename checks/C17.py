SRC = ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp",
       "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C17")
    exe = c.build("systrans.cpp", "asan", only=SRC)
    c.run_many([dict(exe=exe, args=[i], timeout=850, label="systrans") for i in range(8)])
    return c.finish("random sequences of diagonalising, rotating, unitarising, canonicalising, restricting, entry-wise editing, Schrieffer-Wolff transformation, overlaps, "
                    "look-ups, refused calls and parameter changes on one-atom and pair systems (real, complex, sectors, memory saving); basis vectors and Hamiltonian "
                    "are read before and after each operation and judged against dense linear algebra and the operator of the current parameters; "
                    "non-trivial: a distinct history prefix on more than one basis vector", 20000,
                    ["after states with weight have been dropped from the basis vectors, later changes of parameters are not judged",
                     "edited entries are not expected to survive a change of a parameter"])
