from checks.C21 import SRCS


def main(v):
    c = v.Ctx("C27")
    exe, server = c.build_many([dict(harness="backend.cpp", flavour="plain", only=SRCS, ldextra=["-rdynamic"]),
                                dict(harness="opserver.cpp", flavour="plain", only=["QuantumDefect.cpp", "Wavefunction.cpp", "State.cpp", "SQLite.cpp"])])
    script = v.VERIF + "/harness/backend_model.py"
    c.run_many([dict(exe="python3-vt", args=[script, exe, server, str(k)], timeout=c.n(300, 3600), label=f"models {k}", env={"OPENBLAS_NUM_THREADS": "1"})
                for k in range(c.n(8, 16))], workers=8)
    return c.finish(
        "random configurations of the executable (four alkali species, l up to 5, fields of all directions, diamagnetism, both radial methods, cutoffs, exponents 2 to "
        "5, all symmetries); the lists of states are compared to the ranges of the configuration, each energy to the eigenvalues of an independent dense model "
        "(angular parts from explicit uncoupled spin-orbit states, symmetry sectors from projectors), each state by its Rayleigh quotient, orthonormality and "
        "sector; requests for symmetries the basis does not have must be refused", 150,
        ["radial integrals and level energies are taken from the library (they are judged by C01, C12, C13)",
         "with fields, interaction energies are compared up to the pruning of eigenvectors by the backend (coefficients below 5e-5)",
         "not judged: restricted quantum numbers of pairs in fields, symmetries that the fields break, reflection in fields other than Ez"])
