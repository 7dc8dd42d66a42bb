def main(v):
    c = v.Ctx("C26")
    exe = c.build("wignerserve.cpp", "ubasan", only=["WignerD.cpp"])
    script = v.VERIF + "/harness/gui_wigner.py"
    c.run_many([dict(exe="python3-vt", args=[script, exe, str(k)], timeout=c.n(120, 1800), label=f"sessions {k}", env={"OPENBLAS_NUM_THREADS": "1"})
                for k in range(c.n(4, 16))], workers=8)
    return c.finish(
        "histories of one to five sessions of the front end on one directory: elements asked for in random order, relatives by the symmetries of the matrix, angles that are equal, "
        "opposite, or differ by 1e-9 to 1e-3, one or two objects, saved explicitly, at the end, or killed by the system while writing; every element is compared to the spectral "
        "decomposition of J_y and to the library's function",
        1000, ["values compared to 1e-11 (1 + j^2) + 1e-9 (j + 1/2): files are shared by angles that agree to a billionth", "spins up to 12"])
