SRC = ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp",
       "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C16")
    exe = c.build("systwo.cpp", "asan", only=SRC)
    c.run_many([dict(exe=exe, args=[i], timeout=850, label="systwo") for i in range(8)])
    return c.finish("random histories of distances, angles, vectors, orders, surfaces, formulations, refused settings, diagonalisations and builds on pair systems "
                    "(real, complex, with fields, windows, selected pairs, memory saving) are mirrored by a dense model; each Hamiltonian read is compared with "
                    "the one of the current geometry; every combination of symmetries is decomposed into sectors that are judged one by one, in sum, and added; "
                    "non-trivial: a distinct history prefix with a non-zero interaction, or a sector", 8000,
                    ["level energies are those of the defect database (C01)", "matrix elements compared to 2e-6 of the largest interaction",
                     "rotation and reflection symmetry are used for pairs of integer total momentum, whose one-atom basis vectors have the symmetry"])
