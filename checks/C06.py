def main(v):
    c = v.Ctx("C06")
    exe = c.build("matfile.cpp", "ubasan", only=["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "ConfParser.cpp", "QuantumDefect.cpp"])
    c.run(exe, timeout=850)
    return c.finish("matrices of every shape and sparsity pattern (exact bits, with special values) are saved at random points of operation "
                    "histories, reloaded into fresh and used objects and compared bit by bit; an independent reader of the format classifies "
                    "every truncation, mutated or arbitrary byte string and judges whether it may be accepted; non-trivial: a distinct saved "
                    "matrix with entries or a distinct damaged file", 4000,
                    ["the format has no checksum: a changed number inside an otherwise well-formed file is a different valid file"])
