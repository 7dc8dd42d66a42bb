def main(v):
    c = v.Ctx("C03")
    ts, asan = c.build_many([dict(harness="cache_lin.cpp", flavour="tsan", only=[]), dict(harness="cache_lin.cpp", flavour="ubasan", only=[])])
    c.run(ts, env={"ROUNDS": c.n(1500, 20000)}, label="tsan", timeout=600)
    c.run(asan, env={"ROUNDS": c.n(6000, 100000)}, label="asan", timeout=600)
    return c.finish("each recorded history of 24 concurrent operations (2-4 threads, 1-3 keys, colliding and spreading hashes) is searched for a "
                    "sequential order that explains all answers; in growth rounds every answer is judged directly; race detector and address "
                    "sanitizer watch the same executions; non-trivial: a distinct history (operations, keys and answers in invocation order)", 3000,
                    ["schedules are those the scheduler and random delays produced"])
