def main(v):
    c = v.Ctx("C09")
    exe = c.build("basis.cpp", "ubasan", only=["Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp", "ConfParser.cpp"])
    c.run(exe, timeout=800)
    return c.finish("one-atom, union and pair bases for random start states and deviations are compared with a brute-force enumeration of all "
                    "valid states within the limits; then randomly restricted, exported and read back; non-trivial: a distinct configuration", 500,
                    ["spin 1/2 species, the only ones the backend's bases support"])
