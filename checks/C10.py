def main(v):
    c = v.Ctx("C10")
    exe = c.build("state.cpp", "ubasan")
    for k in range(c.n(1, 6)):
        c.run(exe, env={"VERIF_SEED": c.seed * 10 + k}, timeout=600)
    return c.finish("all pairs from a universe of one-atom states (species, quantum numbers, labels, wildcards) and of pair states are compared "
                    "with the relations of the tuples they were built from; order is checked to be total and transitive by sorting; reflection, "
                    "parts, text, hash containers and serialisation per state; non-trivial: a distinct state", 600,
                    ["labels are compared as labels; text forms of labels crafted to look like quantum states are not generated"])
