SYS = ["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "QuantumDefect.cpp", "State.cpp", "Wavefunction.cpp", "WignerD.cpp",
       "Symmetry.cpp", "SQLite.cpp"]


def main(v):
    c = v.Ctx("C28")
    lib = c.build("pibind.cpp", "plain", only=SYS, extra=["-fPIC"], ldextra=["-shared"])
    script = v.VERIF + "/harness/gui_pipy.py"
    c.run_many([dict(exe="python3-vt", args=[script, lib, i], timeout=3000, label="runs", env={"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}) for i in range(8)])
    return c.finish(
        "the front end's own calculations (its real settings, parameters, processes, caches and message handling, on the real library) are run with random configurations, "
        "several slightly different runs after each other on one cache directory, with one to three processes and all ways to hand over the atoms; every announced "
        "result is judged: exactly once per step and block, parameters of the step, energies relative to the energies of the configured initial states, levels, states "
        "and operator of a system that is built anew for the step, and all blocks together; non-trivial: a distinct result", 250,
        ["the model uses the calculation library, which other checks judge", "the binding of the library to Python is replaced (its generator is not installed)",
         "in fields, blocks are not compared with the whole (rarely occurring states are left out, depending on the symmetry)", "energies to 20 kHz"])
