def main(v):
    c = v.Ctx("C04")
    exe = c.build("sqlite_rw.cpp", "ubasan", only=[])
    c.run(exe, timeout=500)
    return c.finish("rows of random integers, doubles and text written through bound parameters are read back by stepping, by range-for and by "
                    "explicit iterators and compared with what was written; a list of failing statements must each raise an error and change "
                    "nothing; threads and processes updating one file must lose no update; non-trivial: every distinct table/case", 1000,
                    ["NaN is excluded: SQLite has no representation for it"])
