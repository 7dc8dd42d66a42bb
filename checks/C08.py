def main(v):
    c = v.Ctx("C08")
    exe = c.build("combine.cpp", "ubasan", only=["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "ConfParser.cpp", "QuantumDefect.cpp"])
    c.run(exe, timeout=850)
    return c.finish("every sector of a random family of symmetries is built from random one-atom Hamiltonians that have these symmetries and is judged "
                    "with dense symmetry operators: orthonormality, symmetry, energies, and the union of all sectors against the full pair space; "
                    "non-trivial: a distinct family with at least one symmetry", 200,
                    ["one-atom Hamiltonians share the requested symmetries", "energies keep a distance of 1e-6 from the edge of the window"])
