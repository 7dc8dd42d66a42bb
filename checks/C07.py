def main(v):
    c = v.Ctx("C07")
    exe = c.build("hmalgebra.cpp", "ubasan", only=["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "ConfParser.cpp", "QuantumDefect.cpp"])
    c.run(exe, timeout=850)
    return c.finish("random histories of additions, scalings, changes of basis, removals and diagonalisations of structured Hermitian matrices are "
                    "followed by a dense model; after each operation entries, basis, untouched operands and the serialised form are compared; "
                    "non-trivial: a distinct history prefix acting on a non-empty matrix", 3000,
                    ["entries below 5e-5 may be dropped by a diagonalisation", "weights keep a distance from the threshold 0.05"])
