def main(v):
    c = v.Ctx("C02")
    exe = c.build("qd_mt.cpp", "tsan", only=["QuantumDefect.cpp"])
    for k in range(c.n(3, 12)):
        c.run(exe, env={"VERIF_SEED": c.seed * 100 + k}, timeout=300)
    return c.finish("every answer given to one of 2-8 threads querying at the same time (same new level behind a barrier, random levels, "
                    "several databases) is judged against a sequential evaluation of the database; the race detector watches all accesses; "
                    "non-trivial: a distinct level/database/thread count answered with a value", 3000,
                    ["happens-before race detection: sees races of the executed schedules, libsqlite3 itself is not instrumented"])
