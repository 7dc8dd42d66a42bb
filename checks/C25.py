from checks.C21 import SRCS


def main(v):
    c = v.Ctx("C25")
    exe, writer = c.build_many([dict(harness="backend.cpp", flavour="plain", only=SRCS, ldextra=["-rdynamic"]),
                                dict(harness="matwriter.cpp", flavour="plain", only=["Hamiltonianmatrix.cpp"])])
    script = v.VERIF + "/harness/gui_loader.py"
    c.run_many([dict(exe="python3-vt", args=[script, exe, writer, str(k)], timeout=c.n(300, 3600), label=f"results {k}", env={"OPENBLAS_NUM_THREADS": "1"})
                for k in range(c.n(5, 16))], workers=8)
    return c.finish(
        "the front end's reader and parser of messages, run against (1) random matrices written by the library, read in every order of energies, states and parameters; (2) random "
        "sequences of messages through a pipe in pieces, several calculations per session, aborted, failed and complete, with the reader in its own thread; (3) random runs of the "
        "executable whose results are read from where the messages said they are and compared to an independent reader",
        500, ["stand-ins for PyQt's threads and signals (no display libraries here); an exception that leaves the reader's thread counts as fatal, as in PyQt", "finite numbers only"])
