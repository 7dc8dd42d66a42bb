def main(v):
    c = v.Ctx("C12")
    exe = c.build("wigner.cpp", "ubasan", only=["WignerD.cpp"])
    c.run(exe, timeout=600)
    return c.finish("complete rotation matrices for spins 0 to 41/2 and random and special angles, elements requested in random order, are compared "
                    "with the exponential of the spin operator and judged for unitarity, composition and inverse; non-trivial: a distinct "
                    "spin/angle combination with non-zero polar angle", 300,
                    ["tolerance 2e-12 per element"])
