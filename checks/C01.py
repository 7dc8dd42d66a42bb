def main(v):
    c = v.Ctx("C01")
    exe = c.build("qd.cpp", "ubasan", only=["QuantumDefect.cpp"])
    c.run(exe, timeout=400)
    return c.finish("a query sequence over the embedded database, random database files, missing and empty files is judged per query "
                    "against an independent evaluation of the tables (and against the first answer to the same query); "
                    "non-trivial: a distinct level that the database covers", 20000)
