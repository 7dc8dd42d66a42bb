SRC = ["SystemBase.cpp", "SystemOne.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp", "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C15")
    exe = c.build("sysone.cpp", "asan", only=SRC)
    c.run_many([dict(exe=exe, args=[i], timeout=850, label="sysone") for i in range(8 if c.thorough else 6)])
    return c.finish("random histories of field, ion and diamagnetism settings, refused settings, diagonalisations and builds on one-atom systems (real, "
                    "complex, restricted, symmetrised, memory saving, with extra states) are mirrored by a dense model; each Hamiltonian read is compared "
                    "with the one of the current parameters; sectors of conserved momenta and reflection parity are compared with the whole; non-trivial: "
                    "a distinct history prefix with a non-zero interaction", 4000,
                    ["level energies are those of the defect database (C01)", "matrix elements compared to 2e-6 of the largest interaction"])
