SRC = ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp",
       "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C18")
    exe = c.build("syssave.cpp", "asan", only=SRC)
    c.run_many([dict(exe=exe, args=[i], timeout=850, label="syssave") for i in range(8)])
    return c.finish("one-atom and pair systems (real, complex, memory saving) with random histories of restrictions, symmetries, parameters, transformations and refused calls are saved "
                    "at a random point (binary, portable binary, JSON; several generations; truncated) and loaded; states, basis vectors and Hamiltonian of the loaded system "
                    "and of the original are compared directly and after each of a random sequence of further operations applied to both; element caches likewise; "
                    "non-trivial: a distinct history", 20000,
                    ["systems are compared without reference to phases and order of basis vectors", "loading happens as in the language binding: into a new system that refers to a new cache"])
